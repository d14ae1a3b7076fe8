/* Frames, precession, nutation, horizon coordinates, separations.   sky N */
#include <math.h>
#include "rec.h"
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"
typedef std::string str;
static const double PI = 3.14159265358979323846;
static bool one_in( int n) { return( rnd( 1, n) == 1); }
static str num( double v) { char b[60]; snprintf( b, sizeof( b), "\"%.34g\"", v); return( b); }
static str list( const double *v, int n) { str r; for( int i = 0; i < n; i++) r += (i ? "," : "") + num( v[i]); return( "[" + r + "]"); }
static str mat( const double *m) { return( "[" + list( m, 3) + "," + list( m + 3, 3) + "," + list( m + 6, 3) + "]"); }
static double hist[4] = { 2000., 1950., 1900., 2026.5 };
static double some_year( void)
{
   if( one_in( 3)) return( hist[rnd( 0, 3)]);        /* one asked for before */
   double y;
   switch( rnd( 0, 5))
      {
      case 0: y = 2000.; break;
      case 1: { const double z[] = { 1875., 1900., 1950., 2000., 2000.00001, 2050., 1999.999995, 0., 12000., -8000. }; y = z[rnd( 0, 9)]; break; }
      case 2: y = rndf( -8000., 12000.); break;
      case 3: y = 2000. + rndf( -1., 1.) * pow( 10., -rndf( 0., 7.)); break;
      case 4: y = one_in( 4) ? rndf( -15000., 19000.) : (double)rnd( -3000, 6000); break;
      default: y = rndf( 1850., 2150.);
      }
   hist[rnd( 0, 3)] = y;
   return( y);
}
static double some_angle( void)
{
   if( one_in( 6)) return( (double)rnd( -4, 8) * PI / 4.);
   if( one_in( 10)) return( (one_in( 2) ? 1. : -1.) * pow( 10., -rndf( 1., 12.)) + (double)rnd( -1, 2) * PI);
   return( rndf( -PI, 2. * PI));
}
static double some_lat( void)
{
   if( one_in( 6)) return( (double)rnd( -2, 2) * PI / 4.);
   if( one_in( 8)) return( (one_in( 2) ? 1. : -1.) * (PI / 2. - pow( 10., -rndf( 1., 12.))));
   if( one_in( 10)) return( (one_in( 2) ? 1. : -1.) * pow( 10., -rndf( 1., 12.)));
   return( asin( rndf( -1., 1.)));
}
static double some_jd( void) { return( one_in( 8) ? 2451545. + (double)rnd( -3, 3) : 2451545. + (one_in( 5) ? rndf( -3e6, 3e6) : rndf( -50000., 50000.))); }
static double junk9[11];
static double *clean( void) { for( int i = 0; i < 11; i++) junk9[i] = 7.25; return( junk9 + 1); }
static bool inside( void) { return( junk9[0] == 7.25 && junk9[10] == 7.25); }
static void matrix( void)
{
   double *m = clean( ), y1 = some_year( ), y2 = some_year( );
   if( one_in( 6)) y2 = y1 + (one_in( 3) ? 0. : rndf( -1., 1.) * pow( 10., -rndf( 3., 7.)));
   const int k = (int)rnd( 0, 6);
   inflight( "precession %d: %.17g to %.17g", k, y1, y2);
   switch( k)
      {
      case 0: case 1: setup_ecliptic_precession( m, y1, y2); rec( "{\"op\":\"ecl\",\"a\":%s,\"b\":%s,\"m\":%s,\"in\":%d}", num( y1).c_str( ), num( y2).c_str( ), mat( m).c_str( ), inside( )); break;
      case 2: case 3: case 4: setup_precession( m, y1, y2); rec( "{\"op\":\"pre\",\"a\":%s,\"b\":%s,\"m\":%s,\"in\":%d}", num( y1).c_str( ), num( y2).c_str( ), mat( m).c_str( ), inside( )); break;
      case 5:
         {
         const double l = rndf( -1e-6, 1e-6), o = rndf( -1e-6, 1e-6);
         const bool plain = one_in( 2);
         if( plain) setup_precession_with_nutation( m, y2); else setup_precession_with_nutation_delta( m, y2, l, o);
         rec( "{\"op\":\"nut\",\"b\":%s,\"l\":%s,\"o\":%s,\"m\":%s,\"in\":%d}", num( y2).c_str( ), plain ? "\"0\"" : num( l).c_str( ), plain ? "\"0\"" : num( o).c_str( ), mat( m).c_str( ), inside( ));
         break;
         }
      default:
         {
         if( y2 < 1000. || y2 > 3000.) y2 = rndf( 1000., 3000.);
         earth_orientation_params p;
         get_earth_orientation_params( 2451545. + (y2 - 2000.) * 365.25, &p, 31);
         setup_precession_with_nutation_eops( m, y2);
         rec( "{\"op\":\"body\",\"b\":%s,\"p\":{\"dX\":%s,\"dY\":%s,\"dPsi\":%s,\"dEps\":%s,\"dut\":%s},\"m\":%s,\"in\":%d}", num( y2).c_str( ), num( p.dX).c_str( ), num( p.dY).c_str( ), num( p.dPsi).c_str( ), num( p.dEps).c_str( ), num( p.tdt_minus_ut1).c_str( ), mat( m).c_str( ), inside( ));
         }
      }
}
static void small( void)
{
   const double t = one_in( 6) ? (double)rnd( -1, 1) * 100. : one_in( 4) ? rndf( -120., 120.) : (some_year( ) - 2000.) / 100.;
   const double jd = some_jd( );
   double l = 7.25, o = 7.25, l2 = 7.25, o2 = 7.25;
   inflight( "obliquity, nutation at %.17g, sidereal time at %.17g", t, jd);
   nutation( t, &l, &o);
   nutation( t, &l2, NULL);
   nutation( t, NULL, &o2);
   rec( "{\"op\":\"obl\",\"t\":%s,\"e\":%s,\"l\":%s,\"o\":%s,\"same\":%d,\"jd\":%s,\"st\":%s}", num( t).c_str( ), num( mean_obliquity( t)).c_str( ), num( l).c_str( ), num( o).c_str( ), l == l2 && o == o2, num( jd).c_str( ), num( green_sidereal_time( jd)).c_str( ));
}
static void vectors( void)
{
   double v[3], w[3], u[3], m[9];
   for( int i = 0; i < 3; i++) { v[i] = (one_in( 6) ? 0. : rndf( -1., 1.)) * pow( 10., (double)rnd( -6, 6)); w[i] = rndf( -1., 1.); }
   const double a = some_angle( ), b = some_lat( );
   inflight( "vector helpers");
   setup_precession( m, 2000., rndf( -3000., 7000.));
   str s = "{\"op\":\"vec\",\"v\":" + list( v, 3) + ",\"w\":" + list( w, 3) + ",\"a\":" + num( a) + ",\"b\":" + num( b) + ",\"m\":" + mat( m);
   memcpy( u, v, sizeof( u)); equatorial_to_ecliptic( u); s += ",\"ecl\":" + list( u, 3);
   memcpy( u, v, sizeof( u)); ecliptic_to_equatorial( u); s += ",\"equ\":" + list( u, 3);
   memcpy( u, v, sizeof( u)); rotate_vector( u, a, 0); s += ",\"r1\":" + list( u, 3);
   memcpy( u, v, sizeof( u)); rotate_vector( u, a, 1); s += ",\"r2\":" + list( u, 3);
   memcpy( u, v, sizeof( u)); rotate_vector( u, a, 2); s += ",\"r3\":" + list( u, 3);
   polar3_to_cartesian( u, a, b); s += ",\"pol\":" + list( u, 3);
   vector_cross_product( u, v, w); s += ",\"x\":" + list( u, 3) + ",\"dot\":" + num( dot_product( v, w)) + ",\"len\":" + num( vector3_length( v));
   memcpy( u, v, sizeof( u)); const double len = normalize_vect3( u); s += ",\"len2\":" + num( len) + ",\"n\":" + list( u, 3);
   const bool in_place = one_in( 2);
   memcpy( u, v, sizeof( u)); precess_vector( m, in_place ? u : v, u); s += ",\"p\":" + list( u, 3);
   memcpy( u, v, sizeof( u)); deprecess_vector( m, in_place ? u : v, u); s += ",\"d\":" + list( u, 3);
   double z[9]; memcpy( z, m, sizeof( z)); invert_orthonormal_matrix( z); s += ",\"inv\":" + mat( z);
   set_identity_matrix( z); s += ",\"id\":" + mat( z) + "}";
   rec( "%s", s.c_str( ));
}
static void points( void)
{
   double in[2] = { some_angle( ), some_lat( ) }, out[2] = { 7.25, 7.25 };
   const int k = (int)rnd( 0, 6);
   double y1 = some_year( ), y2 = some_year( );
   DPT i, o;
   if( k > 1 && k < 4 && one_in( 3)) y1 = 2000.;
   if( k > 1 && k < 4 && one_in( 3)) y2 = 2000.;
   inflight( "point %d: %.17g %.17g, %.17g to %.17g", k, in[0], in[1], y1, y2);
   switch( k)
      {
      case 0: case 1:
         {
         double m[9];
         setup_precession( m, y1, y2);
         precess_ra_dec( m, out, in, k);
         rec( "{\"op\":\"pt\",\"k\":\"mat\",\"m\":%s,\"back\":%d,\"i\":%s,\"o\":%s}", mat( m).c_str( ), k, list( in, 2).c_str( ), list( out, 2).c_str( ));
         break;
         }
      case 2: case 3:
         {
         i.x = -in[0]; i.y = in[1];
         if( one_in( 2)) { precess_pt( &o, &i, y1, y2); } else { o = i; precess_pt( &o, &o, y1, y2); }
         out[0] = -o.x; out[1] = o.y;
         rec( "{\"op\":\"pt\",\"k\":\"pre\",\"a\":%s,\"b\":%s,\"i\":%s,\"o\":%s}", num( y1).c_str( ), num( y2).c_str( ), list( in, 2).c_str( ), list( out, 2).c_str( ));
         break;
         }
      case 4: ra_dec_to_galactic( in[0], in[1], &out[1], &out[0]); rec( "{\"op\":\"pt\",\"k\":\"gal\",\"back\":0,\"i\":%s,\"o\":%s}", list( in, 2).c_str( ), list( out, 2).c_str( )); break;
      case 5: ra_dec_to_supergalactic( in[0], in[1], &out[1], &out[0]); rec( "{\"op\":\"pt\",\"k\":\"sup\",\"back\":0,\"i\":%s,\"o\":%s}", list( in, 2).c_str( ), list( out, 2).c_str( )); break;
      default:
         if( one_in( 2)) { galactic_to_ra_dec( in[1], in[0], &out[0], &out[1]); rec( "{\"op\":\"pt\",\"k\":\"gal\",\"back\":1,\"i\":%s,\"o\":%s}", list( in, 2).c_str( ), list( out, 2).c_str( )); }
         else { supergalactic_to_ra_dec( in[1], in[0], &out[0], &out[1]); rec( "{\"op\":\"pt\",\"k\":\"sup\",\"back\":1,\"i\":%s,\"o\":%s}", list( in, 2).c_str( ), list( out, 2).c_str( )); }
      }
}
static void horizon( void)
{
   DPT rd, aa = { 7.25, 7.25 }, ep = { 7.25, 7.25 }, ll;
   double ha = 7.25;
   const double jd = some_jd( ) ;
   rd.x = some_angle( ); rd.y = some_lat( ); ll.x = some_angle( ); ll.y = some_lat( );
   inflight( "horizon: %.17g %.17g from %.17g %.17g at %.17g", rd.x, rd.y, ll.x, ll.y, jd);
   if( one_in( 2))
      {
      const int k = (int)rnd( 0, 2);
      if( k == 2) ep = rd;
      const DPT was = rd;
      full_ra_dec_to_alt_az( k == 2 ? NULL : &rd, &aa, k ? &ep : NULL, &ll, jd, one_in( 8) ? NULL : &ha);
      if( !k) precess_pt( &ep, &rd, 2000., 2000. + (jd - 2451545.) / 365.25);
      rec( "{\"op\":\"hor\",\"k\":%d,\"rd\":[%s,%s],\"ep\":[%s,%s],\"ll\":[%s,%s],\"jd\":%s,\"ha\":%s,\"aa\":[%s,%s]}", k, num( -was.x).c_str( ), num( was.y).c_str( ), num( -ep.x).c_str( ), num( ep.y).c_str( ), num( ll.x).c_str( ), num( ll.y).c_str( ), num( jd).c_str( ), num( ha).c_str( ), num( aa.x).c_str( ), num( aa.y).c_str( ));
      }
   else
      {
      aa = rd;
      full_alt_az_to_ra_dec( &ep, &aa, jd, &ll);
      rec( "{\"op\":\"roh\",\"aa\":[%s,%s],\"ll\":[%s,%s],\"jd\":%s,\"rd\":[%s,%s]}", num( aa.x).c_str( ), num( aa.y).c_str( ), num( ll.x).c_str( ), num( ll.y).c_str( ), num( jd).c_str( ), num( -ep.x).c_str( ), num( ep.y).c_str( ));
      }
}
static void apart( void)
{
   double a[2] = { some_angle( ), some_lat( ) }, b[2] = { some_angle( ), some_lat( ) }, d = 7.25, p = 7.25, d2 = 7.25, to[2] = { 7.25, 7.25 };
   if( one_in( 3)) { const double z = pow( 10., -rndf( 1., 14.)); b[0] = a[0] + z * rndf( -1., 1.); b[1] = a[1] + z * rndf( -1., 1.); if( fabs( b[1]) > PI / 2.) b[1] = a[1]; }
   if( one_in( 12)) { b[0] = a[0]; b[1] = a[1]; }
   if( one_in( 8)) { b[0] = a[0] + PI; b[1] = -a[1] + (one_in( 2) ? 0. : pow( 10., -rndf( 2., 14.))); if( fabs( b[1]) > PI / 2.) b[1] = -a[1]; }
   inflight( "separation: %.17g %.17g and %.17g %.17g", a[0], a[1], b[0], b[1]);
   const int r = calc_dist_and_posn_ang( a, b, &d, &p);
   calc_dist_and_posn_ang( a, b, &d2, NULL);
   rec( "{\"op\":\"sep\",\"a\":%s,\"b\":%s,\"r\":%d,\"d\":%s,\"p\":%s,\"same\":%d}", list( a, 2).c_str( ), list( b, 2).c_str( ), r, num( d).c_str( ), num( p).c_str( ), d == d2);
   d = one_in( 4) ? pow( 10., -rndf( 1., 12.)) : rndf( 0., PI); p = some_angle( );
   reverse_dist_and_posn_ang( to, a, d, p);
   rec( "{\"op\":\"go\",\"a\":%s,\"d\":%s,\"p\":%s,\"to\":%s}", list( a, 2).c_str( ), num( d).c_str( ), num( p).c_str( ), list( to, 2).c_str( ));
}
int main( int argc, char **argv)
{
   rec_open( );
   rng_seed( env_seed( ) + 15);
   for( long n = atol( argv[1]); n; n--)
      switch( rnd( 0, 9))
         {
         case 0: case 1: case 2: matrix( ); break;
         case 3: small( ); break;
         case 4: vectors( ); break;
         case 5: case 6: points( ); break;
         case 7: case 8: horizon( ); break;
         default: apart( ); break;
         }
   rec_close( );
   return( 0);
}
