/* Sky brightness, extinction, limiting magnitudes; colours of stars.   glow N */
#include <math.h>
#include "rec.h"
#include "vislimit.h"
#include "colors.h"
typedef std::string str;
static const double D = 3.14159265358979323846 / 180.;
static bool one_in( int n) { return( rnd( 1, n) == 1); }
static str num( double v) { char b[60]; if( !isfinite( v)) return( "\"nan\""); snprintf( b, sizeof( b), "\"%.34g\"", v); return( b); }
static str nums( const double *v, int n) { str r = "["; for( int i = 0; i < n; i++) r += (i ? "," : "") + num( v[i]); return( r + "]"); }
static void site( BRIGHTNESS_DATA &b)
{
   b.zenith_ang_moon = rndf( 0., one_in( 2) ? 90. : 180.) * D;
   b.zenith_ang_sun = one_in( 3) ? rndf( 85., 112.) * D : rndf( 0., 180.) * D;
   if( one_in( 15)) b.zenith_ang_moon = 90. * D;
   b.moon_elongation = one_in( 10) ? 0. : one_in( 10) ? 180. * D : one_in( 4) ? rndf( -800., 800.) * D : rndf( 0., 180.) * D;
   b.ht_above_sea_in_meters = one_in( 4) ? 0. : rndf( 0., 5000.);
   b.latitude = one_in( 8) ? 0. : rndf( -90., 90.) * D;
   b.temperature_in_c = rndf( -30., 40.);
   b.relative_humidity = one_in( 8) ? 0. : one_in( 10) ? 100. : rndf( 0., 100.);
   b.year = one_in( 3) ? (double)rnd( 1900, 2100) : rndf( 1900., 2100.);
   b.month = one_in( 3) ? (double)rnd( 1, 12) : rndf( 1., 13.);
}
static void direction( BRIGHTNESS_DATA &b)
{
   b.zenith_angle = one_in( 8) ? 0. : one_in( 12) ? 90. * D : rndf( 0., 90.) * D;
   b.dist_moon = one_in( 3) ? pow( 10., rndf( -2., 1.)) * D : rndf( .5, 180.) * D;
   b.dist_sun = one_in( 3) ? pow( 10., rndf( -2., 1.)) * D : rndf( .5, 180.) * D;
   b.mask = one_in( 2) ? 31 : (int)rnd( 0, 31);
}
static double within( double lo, double hi)
{
   if( one_in( 12)) return( lo);
   if( one_in( 12)) return( hi);
   if( one_in( 10)) return( one_in( 2) ? lo - pow( 10., rndf( -9., .5)) : hi + pow( 10., rndf( -9., .5)));
   return( rndf( lo, hi));
}
int main( int argc, char **argv)
{
   const long n = argc > 1 ? atol( argv[1]) : 300;
   static BRIGHTNESS_DATA b;
   rec_open( );
   rng_seed( (uint64_t)env_seed( ) + 2501);
   memset( &b, 0, sizeof( b));
   site( b);
   direction( b);
   set_brightness_params( &b);
   for( long i = 0; i < n; i++)
      switch( i % 4)
         {
         case 0:
         case 1:
            {
            BRIGHTNESS_DATA was;
            if( one_in( 3))
               {
               site( b);
               if( one_in( 2)) direction( b);
               inflight( "set_brightness_params line %ld", i);
               set_brightness_params( &b);
               }
            if( one_in( 20)) for( int j = 0; j < 5; j++) b.brightness[j] = b.extinction[j] = -1.;
            direction( b);
            was = b;
            inflight( "sky line %ld zen %.17g moon %.17g sun %.17g mask %d", i, b.zenith_angle, b.zenith_ang_moon, b.zenith_ang_sun, b.mask);
            const int order = (int)rnd( 0, 2);
            if( order != 1) compute_sky_brightness( &b);
            if( order) compute_extinction( &b);
            const str s = "\"zen\":" + num( b.zenith_angle) + ",\"zmoon\":" + num( b.zenith_ang_moon) + ",\"zsun\":" + num( b.zenith_ang_sun) + ",\"elong\":" + num( b.moon_elongation)
                  + ",\"dmoon\":" + num( b.dist_moon) + ",\"dsun\":" + num( b.dist_sun) + ",\"lat\":" + num( b.latitude) + ",\"alt\":" + num( b.ht_above_sea_in_meters)
                  + ",\"temp\":" + num( b.temperature_in_c) + ",\"hum\":" + num( b.relative_humidity) + ",\"year\":" + num( b.year) + ",\"month\":" + num( b.month);
            const long m = order != 1 ? b.mask : 0, me = order ? b.mask : 0;
            long bits[5], ebits[5];
            for( int j = 0; j < 5; j++) { bits[j] = (m >> j) & 1; ebits[j] = (me >> j) & 1; }
            double faint = 0.;
            const bool lim = (b.brightness[2] > 0. && one_in( 2));
            if( lim) faint = compute_limiting_mag( &b);
            rec( "{\"op\":\"sky\",%s,\"lit\":%s,\"ext\":%s,\"k\":%s,\"b0\":%s,\"b\":%s,\"x0\":%s,\"x\":%s,\"lim\":%d,\"faint\":%s}", s.c_str( ), ints( bits, 5).c_str( ), ints( ebits, 5).c_str( ),
                  nums( b.k, 5).c_str( ), nums( was.brightness, 5).c_str( ), nums( b.brightness, 5).c_str( ), nums( was.extinction, 5).c_str( ), nums( b.extinction, 5).c_str( ), lim ? 1 : 0, num( faint).c_str( ));
            break;
            }
         case 2:
            {
            const int which = (int)rnd( 1, 6);
            static const char *name[7] = { "", "vi_bv", "vi_vr", "vr_bv", "bv_vr", "vi_bv", "vi_vr" };
            static const double lo[7] = { 0., -.23, -.30, -.10, -.23, -.2304, -.1219 }, hi[7] = { 0., 3.70, 4.00, 1.75, 1.95, 1.8784, 1.8052 };
            double x = within( lo[which], hi[which]);
            if( which > 4 && one_in( 3))                 /* an image of the other way */
               x = which == 5 ? v_minus_i_to_b_minus_v( one_in( 4) ? 3.70 : rndf( -.23, 3.7)) : v_minus_i_to_v_minus_r( one_in( 4) ? 4. : rndf( -.3, 4.));
            inflight( "color %d %.17g", which, x);
            const double r = which == 1 ? v_minus_i_to_b_minus_v( x) : which == 2 ? v_minus_i_to_v_minus_r( x) : which == 3 ? v_minus_r_to_b_minus_v( x)
                  : which == 4 ? b_minus_v_to_v_minus_r( x) : which == 5 ? b_minus_v_to_v_minus_i( x) : v_minus_r_to_v_minus_i( x);
            rec( "{\"op\":\"%s\",\"rel\":\"%s\",\"c\":%s,\"r\":%s}", which > 4 ? "uncolor" : "color", name[which], num( x).c_str( ), num( r).c_str( ));
            break;
            }
         case 3:
            {
            const bool old = one_in( 2);
            double x = old ? within( -.2, 1.8) : within( -.25, 2.);
            if( one_in( 4)) x = (double)rnd( -5, 40) * .05;
            if( old && one_in( 4)) { static const double corner[3] = { .1, .5, 1.4 }; x = corner[rnd( 0, 2)]; }
            inflight( "tycho %d %.17g", (int)old, x);
            if( old)
               {
               const double vt = rndf( -1., 12.), bv = johnson_b_minus_v_from_tycho_b_minus_v( x), v = johnson_v_from_tycho_b_minus_v( x, vt);
               rec( "{\"op\":\"tycho\",\"c\":%s,\"vt\":%s,\"bv\":%s,\"v\":%s}", num( x).c_str( ), num( vt).c_str( ), num( bv).c_str( ), num( v).c_str( ));
               }
            else
               {
               double res[3] = { -7., -7., -7. };
               const int rc = tycho_to_johnson_colors( x, res);
               rec( "{\"op\":\"bessell\",\"c\":%s,\"rc\":%d,\"v\":%s}", num( x).c_str( ), rc, nums( res, 3).c_str( ));
               }
            break;
            }
         }
   rec_close( );
   return( 0);
}
