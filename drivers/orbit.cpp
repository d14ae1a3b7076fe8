/* Orbits: elements to positions, states to elements.   orbit N */
#include <math.h>
#include "rec.h"
#include "watdefs.h"
#include "afuncs.h"
#include "comets.h"
double kepler( const double ecc, double mean_anom);
typedef std::string str;
static const double PI = 3.14159265358979323846, SUN = .01720209895 * .01720209895;
static bool one_in( int n) { return( rnd( 1, n) == 1); }
static str num( double v) { char b[60]; snprintf( b, sizeof( b), "\"%.34g\"", v); return( b); }
static str list( const double *v, int n) { str r; for( int i = 0; i < n; i++) r += (i ? "," : "") + num( v[i]); return( "[" + r + "]"); }
static double some_ecc( void)
{
   switch( rnd( 0, 9))
      {
      case 0: return( 0.);
      case 1: return( rndf( 0., .3));
      case 2: return( rndf( .3, .9));
      case 3: return( rndf( .85, 1.));
      case 4: return( 1.);
      case 5: return( 1. + (one_in( 2) ? -1. : 1.) * pow( 10., -rndf( 1., 12.)));
      case 6: return( rndf( 1., 1.5));
      case 7: return( rndf( 1.5, 12.));
      case 8: { const double z[] = { .9, .8, .5, 1.01, 2., .99999, 1.00001, .899999, .900001 }; return( z[rnd( 0, 8)]); }
      default: return( pow( 10., -rndf( 1., 10.)));
      }
}
static double some_angle( double top)
{
   if( one_in( 6)) return( (double)rnd( 0, (long)( top / PI * 4. + .5)) * PI / 4.);
   if( one_in( 12)) return( pow( 10., -rndf( 2., 9.)));
   return( rndf( 0., top));
}
static str els( const ELEMENTS &e)
{
   return( "{\"T\":" + num( e.perih_time) + ",\"q\":" + num( e.q) + ",\"e\":" + num( e.ecc) + ",\"i\":" + num( e.incl) + ",\"w\":" + num( e.arg_per) + ",\"n\":" + num( e.asc_node) + ",\"gm\":" + num( e.gm) + "}");
}
static void junk( ELEMENTS &e)         /* what was there before must not matter */
{
   unsigned char *p = (unsigned char *)&e;
   const int z = (int)rnd( 0, 2);
   for( size_t i = 0; i < sizeof( e); i++) p[i] = z ? (z == 1 ? 0 : 0x41) : (unsigned char)rnd( 0, 255);
}
static void elements( ELEMENTS &e)
{
   junk( e);
   e.gm = one_in( 2) ? SUN : pow( 10., rndf( -10., -2.));
   e.ecc = some_ecc( );
   e.q = pow( 10., rndf( -2.3, 1.7));
   e.incl = some_angle( PI);
   e.arg_per = some_angle( 2. * PI);
   e.asc_node = some_angle( 2. * PI);
   if( one_in( 8)) { e.asc_node -= 2. * PI; e.arg_per -= 2. * PI; }
   e.perih_time = one_in( 3) ? 0. : 2451545. + rndf( -20000., 20000.);
}
static double when( const ELEMENTS &e)
{
   const double unit = e.q * sqrt( e.q / e.gm);       /* the time scale of the perihelion passage */
   const double z = pow( 10., rndf( -3., 3.));
   return( e.perih_time + (one_in( 2) ? -z : z) * unit * (one_in( 20) ? 0. : 1.));
}
static void position( void)
{
   ELEMENTS e;
   elements( e);
   const double t = when( e);
   double loc[5] = { 0, 0, 0, 0, 7.25 }, vel[4] = { 0, 0, 0, 7.25 }, loc2[4];
   inflight( "comet_posn_and_vel: %s at %.17g", els( e).c_str( ), t);
   derive_quantities( &e, e.gm);
   comet_posn_and_vel( &e, t, loc, vel);
   ELEMENTS e2 = e;
   comet_posn( &e2, t, loc2);
   rec( "{\"op\":\"pos\",\"el\":%s,\"t\":%s,\"r\":%s,\"d\":%s,\"v\":%s,\"same\":%d,\"P\":%s,\"Q\":%s,\"h\":%s}", els( e).c_str( ), num( t).c_str( ), list( loc, 3).c_str( ), num( loc[3]).c_str( ), list( vel, 3).c_str( ),
      !memcmp( loc, loc2, sizeof( loc2)) && loc[4] == 7.25 && vel[3] == 7.25, list( e.perih_vec, 3).c_str( ), list( e.sideways, 3).c_str( ), num( e.angular_momentum).c_str( ));
}
static void solve( void)
{
   double ecc, m;
   do ecc = some_ecc( ); while( ecc == 1.);
   m = ecc < 1. ? (one_in( 10) ? rndf( -300., 300.) : rndf( -PI, PI)) : (one_in( 2) ? 1. : -1.) * pow( 10., rndf( -8., 5.));
   if( one_in( 4)) m = (one_in( 2) ? 1. : -1.) * pow( 10., rndf( -9., 0.));
   if( ecc < 1. && one_in( 15)) m = (double)rnd( -6, 6) * PI / 2.;
   inflight( "kepler( %.17g, %.17g)", ecc, m);
   rec( "{\"op\":\"kep\",\"e\":%s,\"m\":%s,\"x\":%s}", num( ecc).c_str( ), num( m).c_str( ), num( kepler( ecc, m)).c_str( ));
}
static void state( void)
{
   ELEMENTS e;
   double s[6], t = one_in( 3) ? 0. : 2451545. + rndf( -20000., 20000.);
   junk( e);
   e.gm = one_in( 2) ? SUN : pow( 10., rndf( -10., -2.));
   const double gm = e.gm, d = pow( 10., rndf( -2., 2.)), vc = sqrt( gm / d);
   const int kind = (int)rnd( 0, 5);
   double u[3], w[3], len;
   do { for( int i = 0; i < 3; i++) u[i] = rndf( -1., 1.); len = vector3_length( u); } while( len < .1 || len > 1.);
   if( one_in( 8)) { u[2] = 0.; len = hypot( u[0], u[1]); }
   if( one_in( 12)) { u[1] = u[2] = 0.; u[0] = one_in( 2) ? 1. : -1.; len = 1.; }
   for( int i = 0; i < 3; i++) u[i] /= len;
   do { for( int i = 0; i < 3; i++) w[i] = rndf( -1., 1.); len = vector3_length( w); } while( len < .1 || len > 1.);
   const bool flat = u[2] == 0. && one_in( 2);
   if( flat) w[2] = 0.;
   double c = dot_product( u, w);
   if( kind < 2) for( int i = 0; i < 3; i++) w[i] -= c * u[i];       /* at right angles */
   len = vector3_length( w);
   double h[3];
   vector_cross_product( h, u, w);
   if( vector3_length( h) / len < .02) return;
   double f = kind == 0 ? 1. : kind == 1 ? rndf( .3, 1.6) : kind == 2 ? sqrt( 2.) : kind == 3 ? sqrt( 2. + (one_in( 2) ? -1. : 1.) * pow( 10., -rndf( 1., 12.))) : rndf( .1, 3.);
   for( int i = 0; i < 3; i++) { s[i] = u[i] * d; s[i + 3] = w[i] / len * vc * f; }
   inflight( "calc_classical_elements: %s %s gm %.17g at %.17g", list( s, 3).c_str( ), list( s + 3, 3).c_str( ), gm, t);
   double keep[6]; memcpy( keep, s, sizeof( s));
   calc_classical_elements( &e, s, t, 1);
   ELEMENTS a = e, b = e;
   double loc[4], vel[3], loc2[4], vel2[3];
   comet_posn_and_vel( &a, t, loc, vel);
   derive_quantities( &b, gm);
   comet_posn_and_vel( &b, t, loc2, vel2);
   rec( "{\"op\":\"cls\",\"r\":%s,\"v\":%s,\"t\":%s,\"el\":%s,\"r1\":%s,\"v1\":%s,\"r2\":%s,\"v2\":%s,\"kind\":%d}", list( keep, 3).c_str( ), list( keep + 3, 3).c_str( ), num( t).c_str( ), els( e).c_str( ),
      list( loc, 3).c_str( ), list( vel, 3).c_str( ), list( loc2, 3).c_str( ), list( vel2, 3).c_str( ), memcmp( keep, s, sizeof( s)) ? 99 : kind);
}
static void packed( void)
{
   uint32_t z[6];
   ELEMENTS e;
   junk( e);
   const uint32_t edges[] = { 2100000000u, 2100000001u, 3150000000u, 3150000001u, 100000000u, 4194967295u };
   z[0] = (uint32_t)rnd( 0, 3600000000l - 1); z[3] = (uint32_t)rnd( 0, 3600000000l - 1); z[4] = (uint32_t)rnd( 0, 3600000000l - 1); z[5] = (uint32_t)rnd( 0, 1800000000l);
   z[1] = one_in( 4) ? edges[rnd( 0, 5)] : (uint32_t)rnd( 50000000, 4190000000l); z[2] = (uint32_t)rnd( 0, one_in( 3) ? 20000000 : 99999999);
   const double ep = 2451545. + (double)rnd( -20000, 20000);
   inflight( "setup_elems_from_ast_file");
   setup_elems_from_ast_file( &e, z, ep);
   char b[200];
   snprintf( b, sizeof( b), "[\"%u\",\"%u\",\"%u\",\"%u\",\"%u\",\"%u\"]", z[0], z[1], z[2], z[3], z[4], z[5]);
   rec( "{\"op\":\"ast\",\"z\":%s,\"ep\":%s,\"el\":%s,\"a\":%s,\"M\":%s,\"epoch\":%s,\"obj\":%d}", b, num( ep).c_str( ), els( e).c_str( ), num( e.major_axis).c_str( ), num( e.mean_anomaly).c_str( ), num( e.epoch).c_str( ), e.central_obj);
}
int main( int argc, char **argv)
{
   rec_open( );
   rng_seed( env_seed( ) + 14);
   for( long n = atol( argv[1]); n; n--)
      switch( rnd( 0, 11))
         {
         case 0: case 1: case 2: case 3: position( ); break;
         case 4: case 5: solve( ); break;
         case 6: packed( ); break;
         case 7:
            {
            const double p = one_in( 10) ? 0. : one_in( 8) ? pow( 10., -rndf( 1., 8.)) : rndf( 0., 2.8), g = one_in( 3) ? .15 : rndf( -.1, .6);
            inflight( "phase_angle_correction_to_magnitude( %.17g, %.17g)", p, g);
            rec( "{\"op\":\"phase\",\"p\":%s,\"g\":%s,\"m\":%s}", num( p).c_str( ), num( g).c_str( ), num( phase_angle_correction_to_magnitude( p, g)).c_str( ));
            break;
            }
         default: state( ); break;
         }
   rec_close( );
   return( 0);
}
