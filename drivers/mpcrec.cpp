/* Times and angles of 80-column records.   mpcrec date|angle N */
#include <math.h>
#include <ctype.h>
#include "watdefs.h"
#include "date.h"
#include "rec.h"
#include "mpc_func.h"
typedef std::string str;
static bool one_in( int n) { return( rnd( 1, n) == 1); }
static str fmtf( const char *f, ...) { char b[400]; va_list ap; va_start( ap, f); vsnprintf( b, sizeof( b), f, ap); va_end( ap); return( b); }
static str dig( int n) { str r; while( n--) r += (char)('0' + rnd( 0, one_in( 4) ? 0 : 9)); return( r); }
static str nines( int n) { return( one_in( 5) ? str( n, '9') : dig( n)); }
static str pad( str s, size_t n) { while( s.size( ) < n) s += ' '; return( s.substr( 0, n)); }
static void put( str &b, int col, const str &s) { b.replace( col, s.size( ), s); }

static str date_field( void)
{
   int y = (int)rnd( 0, 9) ? (int)rnd( 1600, 2200) : (int)rnd( 0, 9999), m = (int)rnd( 1, 12), d = (int)rnd( 1, one_in( 3) ? 31 : 28);
   if( one_in( 40)) { y = 1582; m = 10; d = one_in( 2) ? (int)rnd( 1, 4) : (int)rnd( 15, 31); }
   str f;
   switch( rnd( 0, 7))
      {
      case 0: case 1: f = fmtf( "%04d %02d %02d.", y, m, d) + nines( (int)rnd( 0, 6)); break;
      case 2: f = fmtf( "%04d %2d %2d.", y, m, d) + nines( (int)rnd( 0, 6)); break;
      case 3: f = fmtf( "%c%02d%02d%02d.", "HIJK"[rnd( 0, 3)], y % 100, m, d) + nines( (int)rnd( 2, 9)); break;
      case 4:
         {
         int n = (int)rnd( 0, 4);
         f = fmtf( "%c%02d%02d%02d:%02d%02d", "HIJK"[rnd( 0, 3)], y % 100, m, d, (int)rnd( 0, 23), (int)rnd( 0, 59));
         if( n) f += fmtf( "%02d", (int)rnd( 0, 59)) + nines( n - 1);
         break;
         }
      case 5: f = fmtf( "M%06d.", (int)rnd( 0, one_in( 4) ? 999999 : 69999)) + nines( (int)rnd( 2, 9)); break;
      case 6: f = fmtf( "%07d.", (int)rnd( 1000000, 3000000)) + nines( (int)rnd( 2, 9)); break;
      default: f = one_in( 2) ? "" : one_in( 2) ? "2013 02 13" : dig( (int)rnd( 1, 16));
      }
   return( pad( f, 17));
}
static str ra_field( bool dec)
{
   str r;
   const int top = dec ? 89 : 23, d = (int)rnd( 0, top), m = (int)rnd( 0, 59), s = (int)rnd( 0, 59), deg = (int)rnd( 0, 359);
   switch( rnd( 0, 8))
      {
      case 0: case 1: r = fmtf( "%02d %02d %02d", d, m, s); { int n = (int)rnd( -1, 3); if( n >= 0) r += "." + nines( n); } break;
      case 2: r = fmtf( "%02d %02d", d, m); { int n = (int)rnd( -1, 6); if( n >= 0) r += "." + nines( n); } break;
      case 3: r = fmtf( "%02d.", d) + nines( (int)rnd( 0, 9)); break;
      case 4: if( dec) r = fmtf( "%02d.", d) + nines( (int)rnd( 0, 8)); else r = fmtf( "%03d.", deg) + nines( (int)rnd( 0, 8)); break;
      case 5: r = fmtf( "%02d%02d%02d", d, m, s) + nines( (int)rnd( 1, dec ? 5 : 6)); break;
      case 6: if( !dec) { r = fmtf( "%03d %02d %02d", deg, m, s); int n = (int)rnd( -1, 2); if( n >= 0) r += "." + nines( n); break; }     /* fall through */
      case 7: r = fmtf( "%02d %02d %02d.", d, m, s) + nines( dec ? 1 : 2); break;
      default: r = one_in( 2) ? "" : one_in( 2) ? "abc" : dig( (int)rnd( 1, 12));
      }
   r = pad( r, dec ? 11 : 12);
   return( dec ? (one_in( 2) ? "-" : "+") + r : r);
}
static str record_( void)
{
   str b( 80, ' ');
   put( b, 5, "K13A00A");
   put( b, 14, str( 1, "CCCCSVRrB"[rnd( 0, 8)]));
   put( b, 15, date_field( ));
   put( b, 32, ra_field( false));
   put( b, 44, ra_field( true));
   put( b, 77, one_in( 8) ? str( 3, (char)rnd( 33, 122)) : "568");
   if( one_in( 6)) b[12] = "* -xK"[rnd( 0, 4)];
   if( one_in( 20)) b = b.substr( 0, rnd( 70, 80));
   if( one_in( 10)) b += one_in( 3) ? "\r\n" : one_in( 2) ? "\n" : str( rnd( 1, 4), ' ');
   if( one_in( 10)) { size_t k = rnd( 0, (long)b.size( ) - 1); b[k] = (char)rnd( 32, 126); }
   return( b);
}
static str js( double v, double unit)        /* |v| in units / 3600, as <<whole, millionths>> */
{
   long double x = fabsl( (long double)v * 3600.L / unit);
   if( !(x < 4e+6L)) return( "[2000000000,0]");
   long long u = llrintl( x * 1e+6L);
   return( fmtf( "[%lld,%lld]", u / 1000000, u % 1000000));
}
static str jp( double p)
{
   long long n = llrint( p * 1e+9);
   if( !(p < 1e+8)) n = 0;
   return( fmtf( "[%lld,%lld]", n / 1000000000, n % 1000000000));
}
static str jt( double jd)
{
   long double v = (long double)jd + .5L;
   if( !(v > -1e+8L && v < 1e+8L)) return( "[2000000000,0,0]");
   long d = (long)floorl( v);
   long long u = llrintl( (v - d) * 86400e+6L);
   if( u >= 86400000000LL) { d++; u -= 86400000000LL; }
   return( fmtf( "[%ld,%lld,%lld]", d, u / 1000000, u % 1000000));
}
static void date_one( void)
{
   str b = record_( );
   char *c = strdup( b.c_str( ));
   unsigned fmt = 99;
   inflight( "extract_date_from_mpc_report \"%s\"", c);
   double jd = extract_date_from_mpc_report( c, &fmt), jd2 = extract_date_from_mpc_report( c, NULL);
   rec( "{\"op\":\"date\",\"b\":%s,\"fmt\":%u,\"zero\":%d,\"t\":%s,\"same\":%d}", codes( b).c_str( ), fmt, jd == 0., jt( jd).c_str( ), jd == jd2 && b == c);
   free( c);
}
static const double PI_ = 3.1415926535897932384626433832795028841971693993751;
static void radec_one( void)
{
   str b = record_( );
   if( b.size( ) < 60) return;
   char *c = strdup( b.c_str( ));
   int rf = 99, df = 99;
   double ra = 9, dec = 9, rp = 9, dp = 9, ra2, dec2;
   inflight( "get_ra_dec_from_mpc_report \"%s\"", c);
   int rc = get_ra_dec_from_mpc_report( c, &rf, &ra, &rp, &df, &dec, &dp);
   int rc2 = get_ra_dec_from_mpc_report( c, NULL, &ra2, NULL, NULL, &dec2, NULL);
   rec( "{\"op\":\"radec\",\"b\":%s,\"rc\":%d,\"rf\":%d,\"rn\":%d,\"rv\":%s,\"rp\":%s,\"df\":%d,\"dn\":%d,\"dv\":%s,\"dp\":%s,\"same\":%d}", codes( b).c_str( ),
      rc, rf, ra < 0., js( ra, PI_ / 12.).c_str( ), jp( rp).c_str( ), df, dec < 0., js( dec, PI_ / 180.).c_str( ), jp( dp).c_str( ),
      rc == rc2 && ra == ra2 && dec == dec2 && b == c);
   free( c);
}
static void write_one( void)
{
   int fmt, kind = (int)rnd( 0, 9);
   if( kind < 3) fmt = (int)rnd( -7, 9);
   else if( kind < 5) fmt = (int)rnd( 100, one_in( 2) ? 109 : 116);
   else if( kind < 7) fmt = (int)rnd( 200, one_in( 2) ? 208 : 215);
   else if( kind < 9) fmt = (int)rnd( 307, 312);
   else fmt = (int)rnd( 400, 402);
   const int top = fmt >= 200 && fmt < 300 || fmt >= 400 ? 24 : one_in( 3) ? 24 : 99;
   long a = rnd( 0, top * 3600 - 1), u = rnd( 0, 999999);
   switch( rnd( 0, 6))
      {
      case 0: u = 0; break;
      case 1: u = 999999; a = rnd( 1, top * 60) * 60 - 1; break;
      case 2: u = 999999 - rnd( 0, 60000); a = rnd( 1, top) * 3600 - 1; break;
      case 3: u = rnd( 0, 9) * 100000 + 50000; break;
      case 4: a = rnd( 0, 59); break;
      default: break;
      }
   double v = (double)( ((long double)a + (long double)u * 1e-6L) / 3600.L);
   const bool sg = one_in( 2), neg = sg && one_in( 2) && v > 0.;
   char b[60];
   memset( b, '#', sizeof( b));
   inflight( "output_angle_to_buff %.15g %d", v, fmt);
   if( sg) output_signed_angle_to_buff( b, neg ? -v : v, fmt);
   else output_angle_to_buff( b, v, fmt);
   rec( "{\"op\":\"write\",\"v\":[%ld,%ld],\"fmt\":%d,\"sg\":%d,\"neg\":%d,\"txt\":%s}", a, u, fmt, sg, neg, codes( b).c_str( ));
   const bool ra_only = (fmt >= 200 && fmt < 300) || fmt >= 400;
   if( fmt <= 3 || (fmt >= 100 && fmt <= 109) || (fmt >= 200 && fmt <= 208) || (fmt >= 307 && fmt <= 312) || fmt >= 400)
      {                                    /* read back, in a record */
      str r( 80, ' '), t = sg ? b + 1 : b;
      bool dec = !ra_only && one_in( 2) && t[11] == ' ';
      if( dec && fmt == 312) return;
      put( r, dec ? 45 : 32, t.substr( 0, dec ? 11 : 12));
      if( dec) r[44] = '+';
      int rf, df;
      double ra, de, rp, dp;
      get_ra_dec_from_mpc_report( r.c_str( ), &rf, &ra, &rp, &df, &de, &dp);
      rec( "{\"op\":\"back\",\"v\":[%ld,%ld],\"fmt\":%d,\"fmt2\":%d,\"back\":%s}", a, u, fmt, dec ? df : rf, dec ? js( de, PI_ / 180.).c_str( ) : js( ra, PI_ / 12.).c_str( ));
      }
}
static void any_one( void)
{
   str b = record_( );
   for( long n = rnd( 1, 20); n; n--) b[rnd( 0, (long)b.size( ) - 1)] = (char)(one_in( 2) ? rnd( 1, 255) : "0123456789.: -+"[rnd( 0, 14)]);
   char *c = strdup( b.c_str( ));
   inflight( "damaged record \"%s\"", c);
   unsigned f; int rf, df; double ra, dec, rp, dp;
   extract_date_from_mpc_report( c, &f);
   if( strlen( c) >= 60) get_ra_dec_from_mpc_report( c, &rf, &ra, &rp, &df, &dec, &dp);
   char ob[80];
   output_angle_to_buff( ob, rndf( 0., 24.), (int)rnd( -20, 500));
   free( c);
   rec( "{\"op\":\"any\"}");
}
int main( int argc, char **argv)
{
   bool date = !strcmp( argv[1], "date");
   rec_open( );
   rng_seed( env_seed( ) + (date ? 5 : 6));
   for( long n = atol( argv[2]); n; n--)
      {
      int k = (int)rnd( 0, 9);
      if( k == 0) any_one( );
      else if( date) date_one( );
      else if( k < 6) radec_one( );
      else write_one( );
      }
   rec_close( );
   return( 0);
}
