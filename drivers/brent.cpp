/* The minimizer: histories of points.   brent N */
#include <math.h>
#include "rec.h"
#include "brentmin.h"
typedef std::string str;
static bool one_in( int n) { return( rnd( 1, n) == 1); }
static str fmtf( const char *f, ...) { char b[900]; va_list ap; va_start( ap, f); vsnprintf( b, sizeof( b), f, ap); va_end( ap); return( b); }
static str num( double v) { return( fmtf( "\"%.17g\"", v)); }
static int kind;
static double c0, c1, c2, c3;
static double func( double x)
{
   const double z = x - c0;
   switch( kind)
      {
      case 0: return( c1 * z * z + c2);                           /* parabola */
      case 1: return( pow( fabs( z), c3) + c2);                   /* cusp or flat bottom */
      case 2: return( c1 * z * z * z * z - z * z + c2);           /* two minima */
      case 3: return( -cos( z * c1) + c2);
      case 4: return( floor( 20. * z * z * c1) / 20.);            /* stairs */
      case 5: return( c1 * z * z + (z > c3 ? 1. : 0.) + c2);      /* a jump */
      case 6: return( exp( z * .3) + exp( -z) * c1);
      case 7: return( fabs( z) + .1 * sin( 40. * z));             /* bumpy */
      case 8: return( c1 * z * z * (1. + .3 * z) + c2);
      default: return( sqrt( z * z + c1 * 1e-4) + c2);
      }
}
static void one( void)
{
   kind = (int)rnd( 0, 9);
   c0 = one_in( 3) ? (double)rnd( -3, 3) : rndf( -3., 3.);
   c1 = one_in( 3) ? 1. : rndf( .05, 3.);
   c2 = one_in( 2) ? 0. : rndf( -10., 10.);
   c3 = kind == 1 ? rndf( .4, 6.) : rndf( -.5, .5);
   double x[3], y[3];
   int tries = 200;
   bool ok = false;
   while( !ok && tries--)
      {
      double w = pow( 10., rndf( -3., 1.5));
      x[1] = one_in( 2) ? c0 + rndf( -w, w) : one_in( 4) ? c0 : rndf( -5., 5.);
      x[0] = x[1] - w * rndf( .01, 1.);
      x[2] = x[1] + w * rndf( .01, 1.);
      if( one_in( 4)) { x[0] = floor( x[0]); x[2] = ceil( x[2]); }
      for( int i = 0; i < 3; i++) y[i] = func( x[i]);
      ok = x[0] < x[1] && x[1] < x[2] && y[1] < y[0] && y[1] < y[2];
      }
   if( !ok) return;
   brent_min_t b;
   int p[3] = { 0, 1, 2 };
   for( int i = 2; i; i--) { int j = (int)rnd( 0, i), t = p[i]; p[i] = p[j]; p[j] = t; }
   inflight( "brent_min_init kind %d: %.17g %.17g %.17g", kind, x[p[0]], x[p[1]], x[p[2]]);
   brent_min_init( &b, x[p[0]], y[p[0]], x[p[1]], y[p[1]], x[p[2]], y[p[2]]);
   const double span = x[2] - x[0];
   if( !one_in( 6)) b.tolerance = span * pow( 10., rndf( -7., -1.));
   if( one_in( 3)) b.ytolerance = pow( 10., rndf( -9., -2.));
   rec( "{\"op\":\"init\",\"x\":[%s,%s,%s],\"y\":[%s,%s,%s],\"bx\":[%s,%s,%s],\"lo\":%s,\"hi\":%s,\"tol\":%s,\"ytol\":%s,\"kind\":%d}", num( x[0]).c_str( ), num( x[1]).c_str( ), num( x[2]).c_str( ),
      num( y[0]).c_str( ), num( y[1]).c_str( ), num( y[2]).c_str( ), num( b.x[0]).c_str( ), num( b.x[1]).c_str( ), num( b.x[2]).c_str( ), num( b.xmin).c_str( ), num( b.xmax).c_str( ), num( b.tolerance).c_str( ), num( b.ytolerance).c_str( ), kind);
   int n = 0, done = 0;
   while( n < 200 && !done)
      {
      inflight( "brent_min_next kind %d (%.17g %.17g %.17g): from %.17g %.17g %.17g, step %d, tolerance %.17g", kind, c0, c1, c3, x[0], x[1], x[2], n, b.tolerance);
      const double nx = brent_min_next( &b), ny = func( nx);
      if( !b.step_type)
         {
         rec( "{\"op\":\"done\",\"x\":%s}", num( nx).c_str( ));
         break;
         }
      done = brent_min_add( &b, ny);
      str xs, ys;
      for( int i = 0; i < (n ? 4 : 4); i++) { xs += (i ? "," : "") + num( b.x[i]); ys += (i ? "," : "") + num( b.y[i]); }
      rec( "{\"op\":\"step\",\"x\":%s,\"y\":%s,\"bx\":[%s],\"by\":[%s],\"lo\":%s,\"hi\":%s,\"done\":%d}", num( nx).c_str( ), num( ny).c_str( ), xs.c_str( ), ys.c_str( ), num( b.xmin).c_str( ), num( b.xmax).c_str( ), done);
      n++;
      /* no tolerance: until the bracket is as narrow as the arithmetic allows */
      if( b.tolerance == 0. && (b.xmax - b.xmin < 1e-6 * span || b.xmax - b.xmin < 1e-6)) break;
      }
   rec( "{\"op\":\"end\",\"n\":%d,\"done\":%d,\"lo\":%s,\"hi\":%s,\"x\":%s,\"c\":%s,\"kind\":%d}", n, done || !b.step_type, num( b.xmin).c_str( ), num( b.xmax).c_str( ), num( b.x[0]).c_str( ), num( c0).c_str( ), kind);
}
int main( int argc, char **argv)
{
   rec_open( );
   rng_seed( env_seed( ) + 12);
   for( long n = atol( argv[1]); n; n--) one( );
   rec_close( );
   return( 0);
}
