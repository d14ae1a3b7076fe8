/* Interpolation.   interp N */
#include <math.h>
#include <vector>
#include "rec.h"
#include "brentmin.h"
double cubic_spline_interpolate_within_table( const double *table, const int n_entries, double x, int *err_code);
double lagrange_interpolate_within_table( const double *table, const int n_entries, double x, const int n_pts, double *deriv);
typedef std::string str;
static bool one_in( int n) { return( rnd( 1, n) == 1); }
static str fmtf( const char *f, ...) { char b[900]; va_list ap; va_start( ap, f); vsnprintf( b, sizeof( b), f, ap); va_end( ap); return( b); }
static str num( double v) { return( fmtf( "\"%.17g\"", v)); }
static str list( const double *v, int n) { str r; for( int i = 0; i < n; i++) r += (i ? "," : "") + num( v[i]); return( "[" + r + "]"); }
int main( int argc, char **argv)
{
   rec_open( );
   rng_seed( env_seed( ) + 13);
   for( long n = atol( argv[1]); n; n--)
      {
      const int what = (int)rnd( 0, 9), len = (int)rnd( what < 4 ? 4 : 2, 18);
      double *t = (double *)malloc( len * sizeof( double));       /* exactly as long as it says */
      const int shape = (int)rnd( 0, 3);
      const double a = rndf( -2., 2.), b = rndf( -2., 2.);
      for( int i = 0; i < len; i++) t[i] = shape == 0 ? rndf( -3., 3.) : shape == 1 ? sin( a + b * i) : shape == 2 ? a + b * i + .1 * i * i : (double)rnd( -2, 2);
      double x = rndf( -2.5, len + 2.5);
      switch( rnd( 0, 6)) { case 0: x = floor( x); break; case 1: x = floor( x) + pow( 10., -rndf( 1., 12.)); break; case 2: x = rndf( -1., 2.); break; case 3: x = len - rndf( 0., 3.); break; case 4: x = floor( x) + .5; break; }
      if( one_in( 30)) x = rndf( -60., 80.);
      if( what < 4)
         {
         int err = 99;
         inflight( "cubic_spline_interpolate_within_table( %d, %.17g)", len, x);
         double v = cubic_spline_interpolate_within_table( t, len, x, &err), v2 = cubic_spline_interpolate_within_table( t, len, x, NULL);
         rec( "{\"op\":\"cubic\",\"t\":%s,\"x\":%s,\"v\":%s,\"err\":%d}", list( t, len).c_str( ), num( x).c_str( ), num( v).c_str( ), v == v2 ? err : 77);
         }
      else if( what < 8)
         {
         const int m = (int)rnd( 2, len < 10 ? len : 10);
         const bool der = one_in( 2);
         double d = 0., gap = 1.;
         inflight( "lagrange_interpolate_within_table( %d, %.17g, %d)", len, x, m);
         for( int i = 0; i < len; i++) if( fabs( x - i) < gap && x != i) gap = fabs( x - i);
         double v = lagrange_interpolate_within_table( t, len, x, m, der ? &d : NULL);
         rec( "{\"op\":\"lagr\",\"t\":%s,\"m\":%d,\"x\":%s,\"v\":%s,\"hasd\":%d,\"d\":%s,\"gap\":%s}", list( t, len).c_str( ), m, num( x).c_str( ), num( v).c_str( ), der, num( d).c_str( ), num( gap).c_str( ));
         }
      else
         {
         double px[3], py[3], pb, pc;
         px[0] = one_in( 3) ? (double)rnd( -5, 5) : rndf( -5., 5.);
         px[1] = px[0] + rndf( .1, 3.); px[2] = px[0] - rndf( .1, 3.);
         for( int i = 0; i < 3; i++) py[i] = one_in( 3) ? (double)rnd( -5, 5) : rndf( -5., 5.);
         double pa = fit_parabola( px, py, &pb, &pc), pb2, pa2 = fit_parabola( px, py, &pb2, NULL), pa3 = fit_parabola( px, py, NULL, NULL);
         if( pa2 != pa || pa3 != pa || pb2 != pb) pa = 1e+9;
         rec( "{\"op\":\"parab\",\"x\":%s,\"y\":%s,\"a\":%s,\"b\":%s,\"c\":%s}", list( px, 3).c_str( ), list( py, 3).c_str( ), num( pa).c_str( ), num( pb).c_str( ), num( pc).c_str( ));
         }
      free( t);
      }
   rec_close( );
   return( 0);
}
