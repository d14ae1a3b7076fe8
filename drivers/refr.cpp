/* Refraction by rules of thumb, formula and integral, and in reverse.   refr N */
#include <math.h>
#include "rec.h"
#include "watdefs.h"
#include "afuncs.h"
typedef std::string str;
static const double D = 3.14159265358979323846 / 180.;
static bool one_in( int n) { return( rnd( 1, n) == 1); }
static str num( double v) { char b[60]; if( !isfinite( v)) return( "\"nan\""); snprintf( b, sizeof( b), "\"%.34g\"", v); return( b); }
static double height( double lowest)
{
   double h = one_in( 3) ? lowest + pow( 10., rndf( -3., 1.5)) : rndf( lowest, 90.);
   if( h > 90.) h = 90.;
   if( one_in( 25)) h = 90.;
   if( one_in( 25)) h = lowest;
   if( one_in( 10)) h = (double)rnd( (long)ceil( lowest), 90);
   return( h >= 90. ? 3.14159265358979323846 / 2. : h * D);
}
int main( int argc, char **argv)
{
   const long n = argc > 1 ? atol( argv[1]) : 300;
   rec_open( );
   rng_seed( (uint64_t)env_seed( ) + 2401);
   for( long i = 0; i < n; i++)
      {
      const double lat = rndf( -90., 90.) * D, alt = one_in( 3) ? 0. : rndf( 0., one_in( 4) ? 10900. : 5000.),
            hum = one_in( 3) ? 0. : rndf( 0., 100.), t = rndf( 240., 315.), wl = one_in( 2) ? .574 : rndf( .32, 1.2);
      const double p = one_in( 30) ? 0. : one_in( 4) ? rndf( 100., 1100.) : 1010. * exp( -alt / 8400.) * rndf( .95, 1.05);
      const double dry = p == 0. ? 0. : hum;
      const str w = "\"lat\":" + num( lat) + ",\"alt\":" + num( alt) + ",\"wl\":" + num( wl) + ",\"hum\":" + num( dry) + ",\"t\":" + num( t) + ",\"p\":" + num( p);
      double h, r;
      switch( i % 6)
         {
         case 0:
            h = height( -1.);
            inflight( "refraction %.17g", h);
            r = refraction( h);
            rec( "{\"op\":\"thumb\",\"h\":%s,\"r\":%s}", num( h).c_str( ), num( r).c_str( ));
            break;
         case 1:
            h = height( -.5);
            inflight( "reverse_refraction %.17g", h);
            r = reverse_refraction( h);
            rec( "{\"op\":\"unthumb\",\"h\":%s,\"r\":%s}", num( h).c_str( ), num( r).c_str( ));
            break;
         case 2:
         case 3:
            h = height( 5.);
            inflight( "saasta %.17g %s", h, w.c_str( ));
            r = (i % 6 == 2) ? saasta_refraction( h, p, t, dry / 100.) : reverse_saasta_refraction( h, p, t, dry / 100.);
            rec( "{\"op\":\"%s\",\"h\":%s,%s,\"r\":%s}", (i % 6 == 2) ? "formula" : "unformula", num( h).c_str( ), w.c_str( ), num( r).c_str( ));
            break;
         case 4:
            h = height( 0.);
            inflight( "integrated %.17g %s", h, w.c_str( ));
            r = integrated_refraction( lat, h, wl, alt, dry, t, p);
            rec( "{\"op\":\"integral\",\"h\":%s,%s,\"r\":%s}", num( h).c_str( ), w.c_str( ), num( r).c_str( ));
            break;
         case 5:
            h = height( 0.);
            inflight( "reverse integrated %.17g %s", h, w.c_str( ));
            r = reverse_integrated_refraction( lat, h, wl, alt, dry, t, p);
            rec( "{\"op\":\"unintegral\",\"h\":%s,%s,\"r\":%s}", num( h).c_str( ), w.c_str( ), num( r).c_str( ));
            break;
         }
      }
   rec_close( );
   return( 0);
}
