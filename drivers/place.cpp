/* Observatory lines, coordinates in text, figures of the planets.   place N SCRATCHFILE */
#include <math.h>
#include "rec.h"
#include "watdefs.h"
#include "mpc_func.h"
double quick_strtod( const char *ibuff, const char **endptr);
extern "C" { double planet_radius_in_meters( const int planet_idx); double planet_axis_ratio( const int planet_idx); }
typedef std::string str;
static const double PI = 3.14159265358979323846;
static bool one_in( int n) { return( rnd( 1, n) == 1); }
static str num( double v) { char b[60]; snprintf( b, sizeof( b), "\"%.34g\"", v); return( b); }
static str pick( const std::vector<str> &v) { return( v[rnd( 0, (long)v.size( ) - 1)]); }
static str digits( int n) { str r; while( n-- > 0) r += (char)rnd( '0', '9'); return( r); }
static str blanks( void) { return( str( (size_t)( one_in( 4) ? rnd( 2, 3) : 1), ' ')); }
static str maybe( const str &s, int n) { return( one_in( n) ? s : ""); }
/* the text in a block of its own size, so that reading past it shows */
struct Text { char *p; Text( const str &s) { p = (char *)malloc( s.size( ) + 1); memcpy( p, s.c_str( ), s.size( ) + 1); } ~Text( ) { free( p); } };
static str number( long top) { str r = std::to_string( rnd( 0, top)); if( one_in( 2)) r += "." + digits( (int)rnd( 0, 9)); if( one_in( 30)) r = "0" + r; return( r); }
static str angle( long top)
{
   if( one_in( 40)) return( pick( { "", ".5", "-3", "x", "60 60 60", "12 61", "12 59 60.1", "12 60.0 1", "359 59 59.99999", "90", "90.0001", "360", "360 0 0.1", "24 00 00", "23 59 60", "89 59 60", "0", "0.0", "00 00 00" }));
   str r = std::to_string( rnd( 0, top));
   const int k = (int)rnd( 0, 5);
   if( k == 0) return( r + "." + digits( (int)rnd( 0, 8)));
   if( k == 1) return( r);
   r += blanks( ) + std::to_string( rnd( 0, one_in( 20) ? 61 : 59));
   if( k == 2) return( r + "." + digits( (int)rnd( 0, 6)));
   if( k == 3 && one_in( 3)) return( r);
   r += blanks( ) + maybe( "0", 5) + std::to_string( rnd( 0, one_in( 20) ? 61 : 59));
   return( one_in( 3) ? r : r + "." + digits( (int)rnd( 1, 5)));
}
static str side( bool lat)
{
   const str c = lat ? pick( { "n", "N", "s", "S" }) : pick( { "e", "E", "w", "W" }), a = angle( lat ? (one_in( 10) ? 95 : 89) : (one_in( 10) ? 400 : 359));
   str r = one_in( 2) ? c + maybe( " ", 2) + a : a + maybe( blanks( ), 2) + c;
   if( one_in( 60)) r = a;
   return( r);
}
static str height( void)
{
   str r = maybe( pick( { "alt ", "Alt. ", "ALT.", "alt", "Alt" }), 2) + number( 6000) + maybe( " ", 2) + pick( { "m", "ft", "m", "ft", "metres", "feet", "f", "", "km" });
   return( r);
}
static str damage( str s)
{
   const int n = one_in( 12) ? (int)rnd( 1, 3) : 0;
   for( int i = 0; i < n && !s.empty( ); i++)
      {
      const size_t k = (size_t)rnd( 0, (long)s.size( ) - 1);
      switch( rnd( 0, 3))
         {
         case 0: s.erase( k, 1); break;
         case 1: s.insert( k, 1, " .,-+nsewmf:x09"[rnd( 0, 14)]); break;
         case 2: s[k] = " .,-+nsewmf:x09"[rnd( 0, 14)]; break;
         default: s.resize( k); break;
         }
      }
   return( s);
}
static void fill( mpc_code_t &c) { memset( &c, (int)rnd( 0, 1) ? 0x41 : 0, sizeof( c)); }
static str out( const mpc_code_t &c)
{
   char code[6]; memcpy( code, c.code, 5); code[5] = 0;
   return( "\"lat\":" + num( c.lat) + ",\"lon\":" + num( c.lon) + ",\"alt\":" + num( c.alt) + ",\"pc\":" + num( c.rho_cos_phi) + ",\"ps\":" + num( c.rho_sin_phi) + ",\"planet\":" + std::to_string( c.planet)
      + ",\"format\":" + std::to_string( c.format) + ",\"p1\":" + std::to_string( c.prec1) + ",\"p2\":" + std::to_string( c.prec2) + ",\"code\":" + codes( code));
}
static void lat_lon( void)
{
   const bool lat = one_in( 2);
   str s = maybe( " ", 4) + side( lat) + pick( { ",", ", ", " ", "  ", "" }) + side( one_in( 15) ? lat : !lat);
   if( one_in( 2)) s += pick( { ",", ", ", " ", "  " }) + height( );
   s = damage( s);
   Text t( s);
   mpc_code_t c;
   fill( c);
   inflight( "get_lat_lon_info( '%s')", s.c_str( ));
   const int z = get_lat_lon_info( NULL, t.p), r = get_lat_lon_info( &c, t.p);
   if( r) fill( c), memset( &c, 0, sizeof( c));
   rec( "{\"op\":\"ll\",\"s\":%s,\"null\":%d,\"r\":%d,%s}", codes( s).c_str( ), z, r, out( c).c_str( ));
}
static void xxx( void)
{
   str s = "COM Long. " + side( false) + ", Lat. " + side( true) + ", Alt. " + number( 5000) + "m" + maybe( ", Google Earth", 3);
   if( one_in( 20)) s = "COM Long. " + side( false) + pick( { "", ", Lat. 3 N", ", Alt. 3m" });
   if( one_in( 20)) s = pick( { "COM Long", "COM", "", "COM Long.", "COM  Long. 3 E, Lat. 3 N, Alt. 3m", "COM Long.3E Lat.3N Alt.3", "COM Long. 10 E, Alt. 300m, Lat. 5 S" });
   s = damage( s);
   Text t( s);
   mpc_code_t c;
   fill( c);
   inflight( "get_xxx_location_info( '%s')", s.c_str( ));
   const int r = get_xxx_location_info( &c, t.p);
   if( r) memset( &c, 0, sizeof( c));
   rec( "{\"op\":\"xxx\",\"s\":%s,\"r\":%d,%s}", codes( s).c_str( ), r, out( c).c_str( ));
}
static void ra_dec( void)
{
   const bool ra = one_in( 2);
   str s = damage( (ra ? maybe( " ", 6) : pick( { "+", "-", "-", "+", "" })) + (ra ? angle( one_in( 2) ? 23 : 380) : angle( one_in( 8) ? 100 : 89)) + maybe( pick( { " ", "  ", ", x", " +12" }), 2));
   Text t( s);
   int n = -7;
   inflight( "get_%s_from_string( '%s')", ra ? "ra" : "dec", s.c_str( ));
   const double v = ra ? get_ra_from_string( t.p, &n) : get_dec_from_string( t.p, &n);
   rec( "{\"op\":\"%s\",\"s\":%s,\"v\":%s,\"n\":%d}", ra ? "ra" : "dec", codes( s).c_str( ), num( v).c_str( ), n);
}
static str pad( str s, size_t n) { while( s.size( ) < n) s += ' '; return( s); }
static str name( void) { return( pick( { "Greenwich", "Cerro Pachon @ home", "X", "", "Some Place, 12 m", "Mt. Lemmon Survey\n", "A~b" })); }
static void code_line( void)
{
   str s;
   const str code = pick( { "500", "W45", "249", "C57", "XYZ", "Abcd", "-PR", "a.b", "~~~" });
   char b[200];
   switch( rnd( 0, 9))
      {
      case 0: case 1: case 2: case 3:
         {
         const double phi = one_in( 10) ? (one_in( 2) ? 1. : -1.) * PI / 2. : rndf( -PI / 2., PI / 2.), r = 1. + rndf( -3e-3, 1e-3);
         const int p1 = (int)rnd( 0, 5), p2 = (int)rnd( 1, 6);
         str lon( b, (size_t)snprintf( b, sizeof( b), "%*.*f", 4 + p1, p1, rndf( 0., 359.9)));
         if( !p1) lon += '.';
         while( lon.size( ) > 3 && lon.find( '.') > 3) lon.erase( 0, 1);
         while( lon.find( '.') < 3) lon = " " + lon;
         str c( b, (size_t)snprintf( b, sizeof( b), "%.*f", p2, r * cos( phi))), d( b, (size_t)snprintf( b, sizeof( b), "%+.*f", p2, r * sin( phi)));
         if( one_in( 12)) c = "0.", d = "+0.";
         if( one_in( 20)) c = " .", d = "  ", d += ".";
         if( one_in( 10) && d.size( ) && d[0] == '+') d[0] = ' ';
         s = pad( pad( pad( pad( code.substr( 0, 3), 4) + lon, 13) + c, 21) + d, 30) + name( );
         break;
         }
      case 4: case 5: case 6:
         {
         const bool sixty = one_in( 3);
         str lon, lat;
         if( sixty)
            {
            char z[60];
            snprintf( z, sizeof( z), "%s%d%02d%02d%s%s", one_in( 2) ? "-" : "", (int)rnd( 0, 359), (int)rnd( 0, 59), (int)rnd( 0, 59), one_in( 2) ? "." : "", ""); lon = z; if( lon.back( ) == '.') lon += digits( (int)rnd( 1, 4));
            snprintf( z, sizeof( z), "%s%d%02d%02d", one_in( 2) ? "-" : "", (int)rnd( 0, 89), (int)rnd( 0, 59), (int)rnd( 0, 59)); lat = z; if( one_in( 2)) lat += "." + digits( (int)rnd( 1, 4));
            }
         else
            {
            lon = one_in( 8) ? "0.0" : maybe( "-", 2) + number( 359);
            lat = one_in( 8) ? "0.0" : maybe( "-", 2) + number( 89);
            }
         s = pad( code, 4) + "!" + maybe( " ", 2) + lon + blanks( ) + lat + blanks( ) + maybe( "-", 8) + number( 6000);
         if( one_in( 3)) s += " @" + pick( { "4", "10", "0", "5", "9001", "9002", "14", "2", "3", "-1", "-3", "7", "9", "15" });
         if( one_in( 20)) s = pad( code, 4) + "! " + pick( { "12.5", "12 x 5", "", "1 2" });
         if( !one_in( 6)) s = pad( s, 47) + name( ); else s = pad( s, 30);
         break;
         }
      case 7: s = pad( code, (size_t)( one_in( 6) ? rnd( 28, 32) : 30)) + name( ); break;
      case 8: s = pick( { "", "2", "24", "249", "249 ", "Abcd", "Abcde", "Code  Long.   cos      sin    Name", "249  whatever this may be, it is no observatory" }); break;
      default: s = pad( code, 4) + number( 9999) + str( (size_t)rnd( 1, 30), ' ') + number( 99) + "." + name( ); break;
      }
   if( s.find( '!') == str::npos || one_in( 8)) { str d = damage( s); if( d.find( '!') == str::npos) s = d; }
   Text t( s);
   mpc_code_t c;
   fill( c);
   inflight( "get_mpc_code_info( '%s')", s.c_str( ));
   const int r = get_mpc_code_info( &c, t.p);
   const bool unk = r == -1 && (c.name < t.p || c.name > t.p + s.size( ));
   rec( "{\"op\":\"code\",\"s\":%s,\"r\":%d,%s,\"name\":%ld}", codes( s).c_str( ), r, out( c).c_str( ), unk ? (strcmp( c.name, "Unkn") ? -2L : -1L) : (long)( c.name - t.p));
}
static void ellipse( void)
{
   const double a = one_in( 2) ? 1. : pow( 10., rndf( -1., 2.)), b = a * (one_in( 3) ? 6356752.314140347 / 6378137. : one_in( 12) ? 1. : rndf( .1, 1.));
   double ang = rndf( -PI, PI), r = a * (one_in( 3) ? 1. + rndf( -1e-3, 1e-3) : one_in( 3) ? pow( 10., rndf( 0., 3.)) : rndf( .05, 2.));
   double x = r * cos( ang), y = r * sin( ang);
   if( one_in( 8)) x = 0.;
   if( one_in( 8)) y = 0.;
   if( x == 0. && y == 0.) return;
   double d = 7.25;
   inflight( "point_to_ellipse( %.17g, %.17g, %.17g, %.17g)", a, b, x, y);
   const double lat = point_to_ellipse( a, b, x, y, &d);
   if( point_to_ellipse( a, b, x, y, NULL) != lat) d = 7.25;
   rec( "{\"op\":\"ell\",\"a\":%s,\"b\":%s,\"x\":%s,\"y\":%s,\"lat\":%s,\"d\":%s}", num( a).c_str( ), num( b).c_str( ), num( x).c_str( ), num( y).c_str( ), num( lat).c_str( ), num( d).c_str( ));
}
static void figure( void)
{
   if( one_in( 3))
      {
      const int p = (int)rnd( -3, 20);
      inflight( "planet %d", p);
      rec( "{\"op\":\"rad\",\"p\":%d,\"a\":%s,\"f\":%s}", p, num( planet_radius_in_meters( p)).c_str( ), num( planet_axis_ratio( p)).c_str( ));
      return;
      }
   const double a = pow( 10., rndf( 5., 8.)), b = a * (one_in( 3) ? 1. : rndf( .7, 1.)), h = rndf( -1e-3, 1e-2) * a, lat = one_in( 6) ? (double)rnd( -2, 2) * PI / 4. : rndf( -PI / 2., PI / 2.);
   double c = 7.25, s = 7.25;
   inflight( "lat_alt_to_parallax");
   lat_alt_to_parallax( lat, h, &c, &s, a, b);
   rec( "{\"op\":\"par\",\"lat\":%s,\"h\":%s,\"a\":%s,\"b\":%s,\"pc\":%s,\"ps\":%s}", num( lat).c_str( ), num( h).c_str( ), num( a).c_str( ), num( b).c_str( ), num( c).c_str( ), num( s).c_str( ));
}
static void quick( void)
{
   str s = maybe( "  ", 3) + pick( { "", "", "-", "+" }) + (one_in( 4) ? digits( (int)rnd( 0, 40)) : std::to_string( rnd( 0, 99999))) + maybe( "." + digits( (int)rnd( 0, one_in( 4) ? 60 : 8)), 2) + maybe( pick( { " 3", "x", "e5", ".", "-", "-." }), 3);
   Text t( s);
   const char *e = NULL;
   inflight( "quick_strtod( '%s')", s.c_str( ));
   const double v = quick_strtod( t.p, &e);
   rec( "{\"op\":\"qn\",\"s\":%s,\"v\":%s,\"n\":%ld}", codes( s).c_str( ), num( v).c_str( ), (long)( e - t.p));
}
static const char *scratch;
static void region( void)
{
   str file, list;
   const int n = (int)rnd( 1, 5);
   const double lat = (double)rnd( -90, 90) + rndf( 0., .9), lon = (double)rnd( one_in( 3) ? -180 : 0, 360) + rndf( 0., .9);
   for( int i = 0; i < n; i++)
      {
      char b[200];
      double w = (double)rnd( 1, 120), x = lon + rndf( -1.5, .5) * w, y = lat + rndf( -40., 10.), z = y + rndf( 5., 60.), x2 = x + w;
      if( one_in( 2)) { x = fmod( x + 720., 360.); x2 = fmod( x2 + 720., 360.); }
      if( one_in( 5)) { const double q = x; x = x2; x2 = q; }
      if( one_in( 5)) { const double q = y; y = z; z = q; }
      snprintf( b, sizeof( b), "%-10.4f%-10.4f%-10.4f%-10.4f%s %d", x, y, x2, z, pick( { "Arizona", "Some Land", "R", "Q, \xe9 d" }).c_str( ), i);
      if( one_in( 8)) b[0] = '#';
      list += (i ? "," : "") + codes( b);
      file += str( b) + pick( { "\n", "\r\n" });
      }
   FILE *f = fopen( scratch, "wb");
   if( !f || fwrite( file.data( ), 1, file.size( ), f) != file.size( )) exit( 3);
   fclose( f);
   f = fopen( scratch, "rb");
   char *b = (char *)malloc( 100);
   memset( b, 'z', 100); b[99] = 0;
   inflight( "extract_region_data_for_lat_lon at %.17g %.17g of\n%s", lat, lon, file.c_str( ));
   const int r = extract_region_data_for_lat_lon( f, b, lat, lon);
   fclose( f);
   rec( "{\"op\":\"reg\",\"lines\":[%s],\"lat\":%s,\"lon\":%s,\"r\":%d,\"name\":%s}", list.c_str( ), num( lat).c_str( ), num( lon).c_str( ), r, codes( b).c_str( ));
   free( b);
}
int main( int argc, char **argv)
{
   rec_open( );
   rng_seed( env_seed( ) + 16);
   scratch = argv[2];
   for( long n = atol( argv[1]); n; n--)
      switch( rnd( 0, 14))
         {
         case 0: case 1: case 2: lat_lon( ); break;
         case 3: case 4: xxx( ); break;
         case 5: case 6: ra_dec( ); break;
         case 7: case 8: case 9: code_line( ); break;
         case 10: case 11: ellipse( ); break;
         case 12: figure( ); break;
         case 13: quick( ); break;
         default: region( ); break;
         }
   unlink( scratch);
   rec_close( );
   return( 0);
}
