/* Places of satellites.   sats N   (rocks.cpp, gust86.cpp and htc20b.cpp linked in) */
#include <math.h>
#include <algorithm>
#include "rec.h"
#include "watdefs.h"
#include "lunar.h"
#include "gust86.h"
int htc20( const double jd, const int sat_no, double *xyz, double *vxyz);
typedef std::string str;
static bool one_in( int n) { return( rnd( 1, n) == 1); }
static str num( double v) { char b[60]; snprintf( b, sizeof( b), "\"%.34g\"", v); return( b); }
static str vec( const double *v) { return( "[" + num( v[0]) + "," + num( v[1]) + "," + num( v[2]) + "]"); }
static const double GUARD = 1.2345e+67;
static double fresh_jd()
{
   static const double special[] = { 2443000.5, 2451545., 2415020., 2433282.423, 2433282.5, 2444239.5, 2411093., 2411368., 2409786., 2442000.5, 2453005.5 };
   switch( rnd( 0, 5))
      {
      case 0: return( special[rnd( 0, sizeof( special) / sizeof( special[0]) - 1)]);
      case 1: return( 2451545. + rndf( -400000., 400000.));
      case 2: return( floor( 2451545. + rndf( -40000., 40000.)) + .5);
      default: return( 2451545. + rndf( -40000., 40000.));
      }
}
static double some_jd( void)         /* often the last one again, or one soon after it */
{
   static double last = 2451545.;
   const int k = (int)rnd( 0, 9);

   if( k == 0) return( last);
   last = (k == 1) ? last + rndf( -1., 1.) : (k == 2) ? last + rndf( -.01, .01) : fresh_jd( );
   return( last);
}
static void jupiter( void)
{
   const double jd = some_jd();
   const int want = (int)rnd( 0, 31);
   double *out = (double *)malloc( ((want & 16) ? 15 : 12) * sizeof( double)), all[15];
   for( int i = 0; i < ((want & 16) ? 15 : 12); i++) out[i] = GUARD;
   inflight( "{\"op\":\"jsat\",\"jd\":%.17g,\"want\":%d}", jd, want);
   const int rc = calc_jsat_loc( jd, out, want, rnd( 0, 3));
   for( int i = 0; i < 15; i++) all[i] = (i < 12 || (want & 16)) ? out[i] : 0.;
   free( out);
   rec( "{\"op\":\"jsat\",\"jd\":%s,\"want\":%d,\"rc\":%d,\"out\":[%s,%s,%s,%s,%s]}", num( jd).c_str( ), want, rc,
         vec( all).c_str( ), vec( all + 3).c_str( ), vec( all + 6).c_str( ), vec( all + 9).c_str( ), vec( all + 12).c_str( ));
}
static void saturn( void)
{
   const double jd = some_jd();
   const int n = one_in( 12) ? (int)rnd( -3, 12) : (int)rnd( 0, 8);
   const long precision = one_in( 15) ? -1L : (long)rnd( 0, 4);
   double *out = (double *)malloc( 3 * sizeof( double));
   out[0] = out[1] = out[2] = GUARD;
   inflight( "{\"op\":\"ssat\",\"jd\":%.17g,\"n\":%d}", jd, n);
   const int rc = calc_ssat_loc( jd, out, n, precision);
   rec( "{\"op\":\"ssat\",\"jd\":%s,\"n\":%d,\"ask\":%d,\"rc\":%d,\"kept\":%d,\"out\":%s}", num( jd).c_str( ), n, precision == -1L, rc,
         out[0] == GUARD && out[1] == GUARD && out[2] == GUARD, vec( out).c_str( ));
   free( out);
}
static void uranus( void)
{
   static const double rate[] = { 2.492952519, 1.516148111, .721718509, .466692120, 4.445190550 };
   static const double at0[] = { 3.098046, 2.285402, .856359, -.915592, -.238051 };
   const int s = (int)rnd( 0, 4);
   double jd = some_jd(), *out = (double *)malloc( 6 * sizeof( double));
   if( one_in( 3))                  /* near zero mean longitude */
      jd = 2444239.5 - at0[s] / rate[s] + (double)rnd( -200, 200) * 6.283185307179586 / rate[s] + (one_in( 2) ? 0. : rndf( -.01, .01));
   inflight( "{\"op\":\"usat\",\"jd\":%.17g,\"s\":%d}", jd, s);
   gust86_posn( jd, s, out);
   rec( "{\"op\":\"usat\",\"jd\":%s,\"s\":%d,\"r\":%s,\"v\":%s}", num( jd).c_str( ), s, vec( out).c_str( ), vec( out + 3).c_str( ));
   free( out);
}
static void triton( void)
{
   const double jd = some_jd();
   double *out = (double *)malloc( 3 * sizeof( double));
   inflight( "{\"op\":\"triton\",\"jd\":%.17g}", jd);
   calc_triton_loc( jd, out);
   rec( "{\"op\":\"triton\",\"jd\":%s,\"out\":%s}", num( jd).c_str( ), vec( out).c_str( ));
   free( out);
}
static void lagrange( void)
{
   const double jd = some_jd();
   const int s = one_in( 12) ? (int)rnd( -3, 6) : (int)rnd( 0, 2);
   const bool speed = !one_in( 5);
   double *r = (double *)malloc( 3 * sizeof( double)), *v = (double *)malloc( 3 * sizeof( double));
   r[0] = r[1] = r[2] = v[0] = v[1] = v[2] = GUARD;
   inflight( "{\"op\":\"csat\",\"jd\":%.17g,\"s\":%d}", jd, s);
   const int rc = htc20( jd, s, r, speed ? v : NULL);
   rec( "{\"op\":\"csat\",\"jd\":%s,\"s\":%d,\"rc\":%d,\"speed\":%d,\"r\":%s,\"v\":%s}", num( jd).c_str( ), s, rc, speed, vec( r).c_str( ), vec( v).c_str( ));
   free( r); free( v);
}
static void rock( void)
{
   const double jd = some_jd();
   static const int known[] = { 401, 402, 505, 514, 515, 516, 610, 611, 612, 613, 614, 615, 616, 617, 618, 635, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 725, 726, 727, 801, 803, 804, 805, 806, 807, 808 };
   const int id = one_in( 10) ? (int)(one_in( 3) ? rnd( -10, 1000) : 100 * rnd( 4, 9) + rnd( 0, 40)) : known[rnd( 0, sizeof( known) / sizeof( known[0]) - 1)];
   double *out = (double *)malloc( 3 * sizeof( double));
   out[0] = out[1] = out[2] = GUARD;
   inflight( "{\"op\":\"rock\",\"jd\":%.17g,\"id\":%d}", jd, id);
   const int rc = evaluate_rock( jd, id, out);
   rec( "{\"op\":\"rock\",\"jd\":%s,\"id\":%d,\"rc\":%d,\"out\":%s}", num( jd).c_str( ), id, rc, vec( out).c_str( ));
   free( out);
}
int main( int argc, char **argv)
{
   const int n = atoi( argv[1]);
   rec_open( );
   if( getenv( "VERIF_OUT") && !freopen( "/dev/null", "w", stdout)) return 3;       /* gust86 talks */
   rng_seed( (uint64_t)env_seed( ) + 2300);
   for( int i = 0; i < n; i++)
      switch( i % 9)
         {
         case 0: case 1: jupiter( ); break;
         case 2: case 3: saturn( ); break;
         case 4: case 5: uranus( ); break;
         case 6: if( one_in( 2)) triton( ); else lagrange( ); break;
         case 7: lagrange( ); break;
         default: rock( );
         }
   return 0;
}
