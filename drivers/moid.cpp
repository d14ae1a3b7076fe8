/* Distances of orbits, of points from ellipses; orbits of planets.   moid N */
#include <math.h>
#include <algorithm>
#include "rec.h"
#include "watdefs.h"
#include "comets.h"
#include "mpc_func.h"
typedef std::string str;
static const double TAU = 6.283185307179586476925;
static bool one_in( int n) { return( rnd( 1, n) == 1); }
static str num( double v) { char b[60]; snprintf( b, sizeof( b), "\"%.34g\"", v); return( b); }
static const double GM = .01720209895 * .01720209895;
static str orbit( const ELEMENTS &e) { return( "{\"q\":" + num( e.q) + ",\"e\":" + num( e.ecc) + ",\"i\":" + num( e.incl) + ",\"w\":" + num( e.arg_per) + ",\"n\":" + num( e.asc_node) + ",\"T\":" + num( e.perih_time) + "}"); }
static void at( const ELEMENTS &e, double f, double *p)
{
   const double d = 1. + e.ecc * cos( f);
   double r = e.q * (1. + e.ecc) / d;
   if( d < 1e-9 || r > 900.) r = 1e+6;
   for( int i = 0; i < 3; i++) p[i] = r * (cos( f) * e.perih_vec[i] + sin( f) * e.sideways[i]);
}
static double apart2( const ELEMENTS &a, double f, const ELEMENTS &b, double g)
{
   double p[3], q[3], s = 0.;
   at( a, f, p); at( b, g, q);
   for( int i = 0; i < 3; i++) s += (p[i] - q[i]) * (p[i] - q[i]);
   return( s);
}
static double downhill( const ELEMENTS &a, double &f, const ELEMENTS &b, double &g, bool fix_f, double s)
{
   double d = apart2( a, f, b, g);
   for( int n = 0; n < 6000 && s > 1e-12; n++)
      {
      bool better = false;
      for( int i = fix_f ? 0 : -1; i <= (fix_f ? 0 : 1) && !better; i++)
         for( int j = -1; j <= 1 && !better; j++)
            {
            const double x = apart2( a, f + i * s, b, g + j * s);
            if( x < d) { d = x; f += i * s; g += j * s; better = true; }
            }
      if( !better) s *= .5;
      }
   return( d);
}
static void some_orbit( ELEMENTS &e, double emax)
{
   memset( &e, 0, sizeof( e));
   e.q = pow( 10., rndf( -1., 1.));
   e.ecc = one_in( 4) ? rndf( 0., .05) : rndf( 0., emax);
   e.incl = one_in( 2) ? rndf( 0., 3.14) : rndf( 0., .3);
   e.arg_per = rndf( -6.28, 6.28);
   e.asc_node = rndf( -6.28, 6.28);
   e.perih_time = 2450000. + rndf( -3000., 3000.);
}
static void moid( bool grid)
{
   ELEMENTS a, b;
   some_orbit( a, .9); some_orbit( b, .95);
   if( one_in( 5)) setup_planet_elem( &a, (int)rnd( 1, 15), rndf( -2., 2.));
   switch( rnd( 0, 24))
      {
      case 0: { const double t = b.perih_time; b = a; b.perih_time = t; } break;
      case 1: a.ecc = b.ecc = 0.; b.incl = a.incl; b.asc_node = a.asc_node; break;
      case 2: a.ecc = 0.; break;
      case 3: b.ecc = 0.; break;
      case 4: a.ecc = rndf( .9, .99); a.q = pow( 10., rndf( -2., 0.)); break;
      case 5: b.ecc = rndf( .9, .9999); b.q = pow( 10., rndf( -2., 0.)); break;
      case 6: b.ecc = 1.; break;
      case 7: b.ecc = rndf( 1., 3.); break;
      case 8: b.incl = a.incl; b.asc_node = a.asc_node; break;
      case 9: a.incl = b.incl = 0.; break;
      case 10: b.q = a.q; b.incl = rndf( 0., 1e-3); break;
      case 11: { const double t = b.perih_time; b = a; b.perih_time = t; } b.arg_per += TAU / 2.; break;
      case 12: a.ecc = b.ecc; a.incl = 0.; b.incl = TAU / 4.; a.arg_per = b.arg_per = a.asc_node = b.asc_node = 0.; b.q = a.q; break;
      case 13: a.ecc = 1e-9 * rndf( 0., 1.); b.ecc = 1e-5 * rndf( 0., 1.); break;
      case 14: { const double t = b.perih_time; b = a; b.perih_time = t; } b.q *= rndf( 1.05, 3.); break;
      case 15: b.incl = a.incl + rndf( -.01, .01); b.asc_node = a.asc_node + rndf( -.01, .01); break;
      case 16: case 17: case 18: case 19:        /* meeting at a point, or nearly so */
         {
         const double f = rndf( 0., TAU), g = rndf( 0., TAU), r = a.q * (1. + a.ecc) / (1. + a.ecc * cos( f));
         a.incl = b.incl = 0.; a.asc_node = b.asc_node = 0.;
         a.arg_per = -f; b.arg_per = -g;         /* both at the node there */
         b.q = r * (1. + b.ecc * cos( g)) / (1. + b.ecc) + rndf( -1., 1.) * pow( 10., -rndf( 1., 7.));
         b.incl = rndf( 0., 3.1);
         }
         break;
      }
   if( b.q <= .001) b.q = .001;
   derive_quantities( &a, GM);
   derive_quantities( &b, GM);
   moid_data_t m;
   memset( &m, 0, sizeof( m));
   inflight( "find_moid_full %s %s", orbit( a).c_str( ), orbit( b).c_str( ));
   const double d = find_moid_full( &a, &b, &m), again = find_moid_full( &a, &b, NULL);
   if( d != again) inflight( "differs without moid_data");
   /* the point of b nearest to the point of a given */
   double f = m.obj1_true_anom, best = 1e+30, g0 = 0.;
   for( int k = 0; k < 720; k++)
      {
      const double x = apart2( a, f, b, k * TAU / 720.);
      if( x < best && apart2( a, f, b, (k + 1) * TAU / 720.) >= x && apart2( a, f, b, (k - 1) * TAU / 720.) >= x)
         {
         double g = k * TAU / 720.;
         const double y = downhill( a, f, b, g, true, .005);
         if( y < best) { best = y; g0 = g; }
         }
      }
   /* nearest pairs of points */
   enum { N = 240 };
   static double P[N][3], Q[N][3], D[N][N];
   struct Pair { double d, f, g; };
   std::vector<Pair> found;
   for( int i = 0; i < N; i++) { at( a, i * TAU / N, P[i]); at( b, i * TAU / N, Q[i]); }
   for( int i = 0; i < N; i++) for( int j = 0; j < N; j++) { D[i][j] = 0.; for( int k = 0; k < 3; k++) D[i][j] += (P[i][k] - Q[j][k]) * (P[i][k] - Q[j][k]); }
   for( int i = 0; i < N; i++) for( int j = 0; j < N; j++)
      if( D[i][j] <= D[(i + 1) % N][j] && D[i][j] <= D[(i + N - 1) % N][j] && D[i][j] <= D[i][(j + 1) % N] && D[i][j] <= D[i][(j + N - 1) % N])
         found.push_back( { D[i][j], i * TAU / N, j * TAU / N });
   std::sort( found.begin( ), found.end( ), []( const Pair &x, const Pair &y) { return( x.d < y.d); });
   if( found.size( ) > 8) found.resize( 8);
   for( Pair &p : found) p.d = downhill( a, p.f, b, p.g, false, .02);
   std::sort( found.begin( ), found.end( ), []( const Pair &x, const Pair &y) { return( x.d < y.d); });
   str others;
   for( size_t i = 0; i < found.size( ) && i < 4; i++) others += (i ? ",[" : "[") + num( found[i].f) + "," + num( found[i].g) + "]";
   rec( "{\"op\":\"moid\",\"a\":%s,\"b\":%s,\"moid\":%s,\"f\":%s,\"g0\":%s,\"jd\":%s,\"speed\":%s,\"others\":[%s],\"grid\":%d}", orbit( a).c_str( ), orbit( b).c_str( ), num( d).c_str( ), num( f).c_str( ),
         num( g0).c_str( ), num( m.jd1).c_str( ), num( m.barbee_speed).c_str( ), others.c_str( ), (int)( grid && b.ecc < 1.));
}
static void ellipse( void)
{
   const double a = one_in( 2) ? 1. : rndf( .1, 30.);
   double b = a, x = rndf( -3., 3.) * a, y = rndf( -3., 3.) * a, lat, dist = 9e+9;
   switch( rnd( 0, 5)) { case 0: b = a * rndf( .02, 1.); break; case 1: b = a * (1. - pow( 10., -rndf( 2., 16.))); break; case 2: b = a * .99664719; break; default: { const double e = rndf( 0., .99); b = a * sqrt( 1. - e * e); } }
   if( one_in( 8)) b = a;
   if( one_in( 4)) x *= pow( 10., -rndf( 0., 14.));
   if( one_in( 4)) y *= pow( 10., -rndf( 0., 14.));
   if( one_in( 20)) x = 0.;
   if( one_in( 20)) y = 0.;
   if( one_in( 20)) { const double z = rndf( 0., TAU); x = a * cos( z); y = b * sin( z); }
   inflight( "point_to_ellipse %.17g %.17g %.17g %.17g", a, b, x, y);
   lat = point_to_ellipse( a, b, x, y, &dist);
   rec( "{\"op\":\"ellipse\",\"a\":%s,\"b\":%s,\"x\":%s,\"y\":%s,\"lat\":%s,\"dist\":%s}", num( a).c_str( ), num( b).c_str( ), num( x).c_str( ), num( y).c_str( ), num( lat).c_str( ), num( dist).c_str( ));
}
static void planet( void)
{
   const int n = (int)rnd( -3, 18);
   const double t = one_in( 4) ? (double)rnd( -2, 3) : rndf( -10., 10.);
   ELEMENTS e;
   memset( &e, 0x41, sizeof( e));
   inflight( "setup_planet_elem %d %.17g", n, t);
   const int rc = setup_planet_elem( &e, n, t);
   if( rc) rec( "{\"op\":\"planet\",\"n\":%d,\"t\":%s,\"rc\":%d}", n, num( t).c_str( ), rc);
   else rec( "{\"op\":\"planet\",\"n\":%d,\"t\":%s,\"rc\":0,\"q\":%s,\"e\":%s,\"i\":%s,\"node\":%s,\"w\":%s,\"T\":%s}", n, num( t).c_str( ), num( e.q).c_str( ), num( e.ecc).c_str( ), num( e.incl).c_str( ), num( e.asc_node).c_str( ), num( e.arg_per).c_str( ), num( e.perih_time).c_str( ));
}
int main( int argc, char **argv)
{
   const long n = argc > 1 ? atol( argv[1]) : 300;
   rng_seed( (uint64_t)env_seed( ) + 2200);
   rec_open( );
   for( long k = 0; k < n; k++)
      switch( rnd( 0, 3))
         {
         case 0: ellipse( ); break;
         case 1: if( one_in( 2)) planet( ); else ellipse( ); break;
         default: moid( one_in( 20)); break;
         }
   rec_close( );
   return( 0);
}
