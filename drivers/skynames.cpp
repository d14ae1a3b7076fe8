/* Constellations, variable stars, star catalogues.   skynames N */
#include <math.h>
#include "rec.h"
#include "watdefs.h"
#include "afuncs.h"
#include "mpc_func.h"
#include "constell_pts.h"
typedef std::string str;
extern "C" const char *constell_names;
static bool one_in( int n) { return( rnd( 1, n) == 1); }
static void con( double ra, double dec)
{
   char b[8];
   memset( b, '#', 8);
   char *name = one_in( 20) ? NULL : b;
   inflight( "constellation of %.17g %.17g", ra, dec);
   const int rc = constell_from_ra_dec( ra, dec, name);
   if( name && (b[3] || b[4] != '#')) strcpy( b, "???");
   rec( "{\"op\":\"con\",\"ra\":\"%.34g\",\"dec\":\"%.34g\",\"rc\":%d,\"name\":\"%s\"}", ra, dec, rc, name ? b : "");
}
static void number( const str &s)
{
   char *t = strdup( s.c_str( ));
   inflight( "number of '%s'", t);
   const int rc = decipher_var_desig( t);
   rec( "{\"op\":\"number\",\"s\":%s,\"rc\":%d}", codes( s).c_str( ), rc);
   free( t);
}
static void make( int n)
{
   char b[40];
   inflight( "variable %d", n);
   memset( b, '#', 40);
   make_var_desig( b, n);
   b[39] = 0;
   rec( "{\"op\":\"make\",\"n\":%d,\"out\":%s}", n, codes( b).c_str( ));
   str s = b;
   if( one_in( 4)) for( auto &c : s) if( one_in( 2)) c = (char)tolower( c);
   number( one_in( 3) ? s + " Cyg" : s);
}
static void catcode( const str &s)
{
   char *t = strdup( s.c_str( ));
   inflight( "catalogue '%s'", t);
   const char rc = net_name_to_byte_code( t);
   rec( "{\"op\":\"catcode\",\"s\":%s,\"rc\":%d}", codes( s).c_str( ), (int)rc);
   free( t);
}
int main( int argc, char **argv)
{
   const int n = atoi( argv[1]);
   static const double deltas[] = { 0., .5, -.5, .001, -.001, 1., -1. };
   rec_open( );
   str all = "{\"op\":\"abbrs\",\"all\":[";
   for( int k = 0; k < 88; k++) all += (k ? ",\"" : "\"") + str( constell_names + 3 * k, 3) + "\"";
   rec( "%s]}", all.c_str( ));
   for( size_t k = 0; k < sizeof( corners) / sizeof( corners[0]); k++)
      for( int a = -1; a < 2; a += 2)
         for( int d = -1; d < 2; d += 2)
            {
            double ra = (corners[k][1] + a * .5) / 240., dec = (corners[k][0] + d * .5) / 60. - 90.;
            con( one_in( 4) ? ra + 360. * (double)rnd( -9, 9) : ra, dec);
            }
   for( int k = 0; k < n; k++)
      {
      double ra = rndf( 0., 360.), dec = asin( rndf( -1., 1.)) * 180. / 3.14159265358979323846;
      if( one_in( 4))
         {
         const int *c = corners[rnd( 0, (long)( sizeof( corners) / sizeof( corners[0])) - 1)], *c2 = corners[rnd( 0, (long)( sizeof( corners) / sizeof( corners[0])) - 1)];
         ra = (c[1] + deltas[rnd( 0, 6)]) / 240., dec = (c2[0] + deltas[rnd( 0, 6)]) / 60. - 90.;
         }
      if( one_in( 30)) dec = one_in( 2) ? -90. : 90.;
      if( one_in( 20)) ra = one_in( 2) ? 0. : rndf( -.01, .01);
      if( one_in( 5)) ra += 360. * (double)rnd( -9, 9);
      if( dec >= -90. && dec <= 90.) con( ra, dec);
      }
   for( int k = 1; k <= 400; k++) make( k);
   for( int k = 0; k < n / 4; k++) make( (int)floor( pow( 10., rndf( 0., 7.))));
   for( int a = 0; a < 96; a++)
      for( int b = 0; b < 96; b++)
         {
         str s;
         if( a) s += (char)( 31 + a);
         if( b) s += (char)( 31 + b);
         if( s.size( ) < 2 || (isalpha( s[0]) && isalpha( s[1])) || one_in( 8)) number( one_in( 3) ? s + " " : s);
         }
   for( int k = 0; k < n / 20; k++)
      {
      str s = one_in( 2) ? "V" : "";
      for( long j = rnd( 0, 6); j; j--) s += (char)( one_in( 3) ? rnd( 32, 126) : rnd( '0', '9'));
      number( s);
      }
   std::vector<str> names;
   for( int c = -128; c < 128; c++)
      {
      const char *t = byte_code_to_net_name( (char)c);
      rec( "{\"op\":\"catname\",\"c\":%d,\"out\":[%s]}", c, t ? codes( t).c_str( ) : "");
      if( t) names.push_back( t);
      }
   names.push_back( "Hipparcos"); names.push_back( "Gaia"); names.push_back( ""); names.push_back( str( 200, 'x')); names.push_back( "GSC"); names.push_back( "UCAC-44");
   for( int k = 0; k < n / 5; k++)
      {
      const str nm = names[(size_t)rnd( 0, (long)names.size( ) - 1)];
      str s;
      const int how = (int)rnd( 0, 5);
      for( size_t j = 0; j < nm.size( ); j++)
         {
         char c = nm[j];
         if( how && one_in( 4) && (c == '-' || c == ' ')) continue;
         if( how > 1 && one_in( 12)) s += one_in( 2) ? "-" : " ";
         if( how > 2 && one_in( 2)) c = (char)( one_in( 2) ? tolower( c) : toupper( c));
         if( how > 3 && isdigit( c) && one_in( 3) && j && !isdigit( nm[j - 1])) s += one_in( 2) ? "DR" : "dr";
         if( how == 5 && one_in( 30)) c = (char)rnd( 32, 126);
         s += c;
         }
      if( how > 1 && one_in( 4)) s += ".0";
      if( how == 5 && one_in( 5)) s += str( (size_t)rnd( 60, 120), one_in( 2) ? ' ' : '0');
      catcode( s);
      }
   rec_close( );
   return( 0);
}
