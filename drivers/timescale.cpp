/* Time scales: Delta-T, UTC, Earth orientation parameters.   timescale N FILES */
#include <math.h>
#include <limits.h>
#include <vector>
#include "rec.h"
#include "watdefs.h"
#include "afuncs.h"
extern int mjd_end_of_predictive_leap_seconds;
long double DLL_FUNC tdb_minus_tdt( const long double t_centuries);
typedef std::string str;
static bool one_in( int n) { return( rnd( 1, n) == 1); }
static str fmtf( const char *f, ...) { char b[900]; va_list ap; va_start( ap, f); vsnprintf( b, sizeof( b), f, ap); va_end( ap); return( b); }
static str num( double v) { return( fmtf( "\"%.17g\"", v)); }
static str numl( long double v) { return( fmtf( "\"%.21Lg\"", v)); }

struct Eop { bool on; int d0, n, nn, lasti; } eop;
static str def_text;                   /* the library keeps a pointer to it */

static str coeff( void)
{
   switch( rnd( 0, 5))
      {
      case 0: return( fmtf( "%ld", rnd( -50, 50)));
      case 1: return( fmtf( "%.3f", rndf( -200., 200.)));
      case 2: return( fmtf( "%.6g", rndf( -.01, .01)));
      case 3: return( fmtf( "%ld.", rnd( 0, 9)));
      case 4: return( fmtf( "%.2e", rndf( -3., 3.)));
      default: return( "0");
      }
}
static void define_dt( void)
{
   str js, txt;
   const int n = (int)rnd( 0, 4);
   for( int i = 0; i < n; i++)
      {
      str a = one_in( 5) ? "-1e+308" : fmtf( "%ld", rnd( -3000, 2200)), b = one_in( 5) ? "1e+308" : fmtf( "%ld", rnd( -2500, 3000)), o = "2000";
      if( one_in( 3)) { long y = rnd( 1500, 2100); a = fmtf( "%ld.5", y); b = fmtf( "%ld", y + rnd( 1, 300)); }
      str t = a + "," + b + ":";
      if( one_in( 2)) { o = fmtf( one_in( 3) ? "%ld.25" : "%ld", rnd( -500, 2100)); t += "o" + o + ","; }
      str c;
      for( int k = (int)rnd( 1, 6); k; k--) { str v = coeff( ); t += v + (k > 1 ? "," : ""); c += fmtf( "%s\"%s\"", c.empty( ) ? "" : ",", v.c_str( )); }
      txt += (i ? ";" : "") + t;
      js += fmtf( "%s{\"a\":\"%s\",\"b\":\"%s\",\"o\":\"%s\",\"c\":[%s]}", i ? "," : "", a.c_str( ), b.c_str( ), o.c_str( ), c.c_str( ));
      }
   if( n && one_in( 4)) txt += one_in( 2) ? " " : one_in( 2) ? "\r\n" : ";";
   def_text = txt;
   inflight( "reset_td_minus_dt_string( \"%s\")", txt.c_str( ));
   reset_td_minus_dt_string( n || one_in( 2) ? def_text.c_str( ) : NULL);
   rec( "{\"op\":\"def\",\"g\":[%s]}", js.c_str( ));
}
static str ilist( const std::vector<long> &v) { str r; for( size_t i = 0; i < v.size( ); i++) r += fmtf( "%s%ld", i ? "," : "", v[i]); return( "[" + r + "]"); }
static std::vector<long> wig( long lo, long hi) { std::vector<long> v; for( long n = rnd( 2, 9); n; n--) v.push_back( rnd( lo, hi)); return( v); }
static void load_eop( void)
{
   const int kind = (int)rnd( 0, 9);
   const str name = str( getenv( "VERIF_TMP") ? getenv( "VERIF_TMP") : "/tmp") + "/finals.all";
   int obs[3] = { -9, -9, -9 }, info[3] = { -9, -9, -9 }, rc, irc;
   str what = "good", more;
   Eop e = { true, 0, 0, 0, 0 };
   if( kind == 0) what = "none";
   else if( kind == 1) what = "missing";
   else
      {
      if( kind == 2) what = "short";
      if( kind == 3) what = "bad";
      const int lines = what == "short" ? (int)rnd( 1, 16370) : (int)rnd( 16371, 19000), blank = one_in( 2) ? 0 : (int)rnd( 1, 90);
      e.d0 = (int)rnd( 41684, one_in( 2) ? 41684 : 50000);
      e.n = lines;
      e.nn = lines - (one_in( 4) ? 0 : (int)rnd( 1, lines < 2000 ? lines : 2000));
      e.lasti = e.d0 + (one_in( 4) ? lines : (int)rnd( 1, lines)) - 1;
      const long r = rnd( -10000, 40000), u0 = rnd( -8000000, 8000000);
      std::vector<long> w = wig( -20000, 20000), px = wig( -270000, 350000), py = wig( -20000, 600000), ps = wig( -129000, 54000), pe = wig( -17000, 9900);
      px[0] = rnd( -270000, 350000); w[0] = 0;
      /* the cubic may overshoot its data: keep within what the library asserts */
      for( auto &x : px) x = x / 3 + 20000; for( auto &x : py) x = x / 3 + 150000; for( auto &x : ps) x = x / 3 - 20000; for( auto &x : pe) x = x / 3 - 3000;
      FILE *fp = fopen( name.c_str( ), "wb");
      if( !fp) { perror( name.c_str( )); exit( 3); }
      long leaps = 0;
      for( int k = 0; k < lines + blank; k++)
         {
         char b[200];
         memset( b, ' ', 187); b[187] = '\n'; b[188] = 0;
         long ut = u0 - (k * r + w[k % w.size( )]) + leaps * 10000000L;
         if( ut < -8500000) { ut += 10000000; leaps++; }
         if( ut > 8500000) { ut -= 10000000; leaps--; }
         auto put = [&]( int col, const str &s) { memcpy( b + col, s.data( ), s.size( )); };
         put( 0, fmtf( "%2d%2d%2d", 73, 1, 2));
         put( 7, fmtf( "%5d.00", e.d0 + k));
         if( k < lines)
            {
            b[16] = e.d0 + k <= e.lasti ? 'I' : 'P';
            put( 18, fmtf( "%9.6f", (double)px[k % px.size( )] * 1e-6)); put( 28, "0.000033");
            put( 37, fmtf( "%9.6f", (double)py[k % py.size( )] * 1e-6)); put( 47, "0.000033");
            b[57] = b[16];
            put( 58, fmtf( "%10.7f", (double)ut * 1e-7)); put( 69, "0.0000096");
            if( k < e.nn)
               {
               b[95] = b[16];
               put( 97, fmtf( "%9.3f", (double)ps[k % ps.size( )] * 1e-3)); put( 107, "   0.300");
               put( 116, fmtf( "%9.3f", (double)pe[k % pe.size( )] * 1e-3)); put( 126, "   0.300");
               }
            }
         else b[20] = '.';
         if( what == "bad" && !k) { switch( rnd( 0, 4)) { case 0: b[12] = '0'; break; case 1: b[16] = 'P'; break; case 2: b[100] = '\n'; b[101] = 0; break; case 3: b[20] = '0'; break; default: b[27] = '3'; } }
         fputs( b, fp);
         }
      fclose( fp);
      more = fmtf( ",\"d0\":%d,\"n\":%d,\"nn\":%d,\"lasti\":%d,\"r\":%ld,\"u0\":%ld", e.d0, e.n, e.nn, e.lasti, r, u0) + ",\"w\":" + ilist( w)
            + ",\"px\":" + ilist( px) + ",\"py\":" + ilist( py) + ",\"ps\":" + ilist( ps) + ",\"pe\":" + ilist( pe);
      }
   inflight( "load_earth_orientation_params %s", what.c_str( ));
   rc = load_earth_orientation_params( what == "none" ? NULL : what == "missing" ? "/nonexistent/finals.all" : name.c_str( ), what == "none" || one_in( 8) ? NULL : obs);
   if( obs[0] == -9) obs[0] = e.lasti;
   irc = load_earth_orientation_params( NULL, info);
   e.on = what == "good";
   eop = e;
   remove( name.c_str( ));
   rec( "{\"op\":\"eop\",\"what\":\"%s\",\"rc\":%d,\"obs\":%d,\"info\":[%d,%d,%d],\"inforc\":%d%s}", what.c_str( ), rc, obs[0], info[0], info[1], info[2], irc, more.c_str( ));
}
static double some_jd( void)
{
   double jd;
   switch( rnd( 0, eop.on ? 9 : 6))
      {
      case 0: jd = rndf( -2e+6, 5e+6); break;
      case 1: jd = 2400000.5 + rndf( 37000., 42000.); break;
      case 2: jd = 2400000.5 + (double)rnd( 37000, 42000); if( one_in( 2)) jd = nextafter( jd, one_in( 2) ? 0. : 1e+9); break;
      case 3: jd = 2400000.5 + rndf( 41000., 62000.); break;
      case 4: { int y = (int)rnd( 1972, 2030); jd = 2400000.5 + (double)( 365 * y + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 - 678940 + (one_in( 2) ? (y % 4 ? 181 : 182) : 0)); if( one_in( 2)) jd = nextafter( jd, one_in( 2) ? 0. : 1e+9); if( one_in( 3)) jd -= rndf( 0., 2.); break; }
      case 5: jd = 2451545. + ((double)rnd( -3000, 6000) - 2000.) * 365.25; if( one_in( 3)) jd += rndf( 0., 365.); break;
      case 6: jd = one_in( 20) ? rndf( 2e+7, 5e+7) : rndf( 2.3e+6, 2.6e+6); break;
      case 7: jd = 2400000.5 + eop.d0 + (double)rnd( -2, 4) + (one_in( 2) ? 0. : rndf( -1., 1.)); break;
      case 8: jd = 2400000.5 + eop.d0 + (double)rnd( -5, 3) + (one_in( 2) ? eop.n : eop.nn) + (one_in( 2) ? 0. : rndf( -1., 1.)); break;
      default: jd = 2400000.5 + eop.d0 + rndf( 0., (double)eop.n); if( one_in( 3)) jd = floor( jd) + .5; break;
      }
   return( jd);
}
int main( int argc, char **argv)
{
   rec_open( );
   rng_seed( env_seed( ) + 11);
   long files = atol( argv[2]), n = atol( argv[1]);
   for( long h = 0; h < files; h++)
      {
      reset_td_minus_dt_string( NULL);
      load_earth_orientation_params( NULL, NULL);
      mjd_end_of_predictive_leap_seconds = INT_MAX;
      eop.on = false;
      rec( "{\"op\":\"start\"}");
      for( long k = n / files; k; k--)
         {
         const int what = (int)rnd( 0, 99);
         if( what < 2) define_dt( );
         else if( what < 3) load_eop( );
         else if( what < 4)
            {
            int d = one_in( 3) ? INT_MAX : (int)rnd( 41317, 70000);
            mjd_end_of_predictive_leap_seconds = d;
            rec( "{\"op\":\"hz\",\"d\":%d}", d == INT_MAX ? 2000000000 : d);
            }
         else
            {
            const double jd = some_jd( );
            if( what < 40) { inflight( "td_minus_ut( %.17g)", jd); double v = td_minus_ut( jd); rec( "{\"op\":\"ut\",\"jd\":%s,\"v\":%s}", num( jd).c_str( ), num( v).c_str( )); }
            else if( what < 75) { inflight( "td_minus_utc( %.17g)", jd); double v = td_minus_utc( jd); rec( "{\"op\":\"utc\",\"jd\":%s,\"v\":%s}", num( jd).c_str( ), num( v).c_str( )); }
            else if( what < 85)
               {
               earth_orientation_params p;
               int mask = one_in( 3) ? 31 : (int)rnd( 0, 31);
               inflight( "get_earth_orientation_params( %.17g, %d)", jd, mask);
               int rc = get_earth_orientation_params( jd, &p, mask);
               rec( "{\"op\":\"orient\",\"jd\":%s,\"mask\":%d,\"rc\":%d,\"v\":[%s,%s,%s,%s,%s]}", num( jd).c_str( ), mask, rc, num( p.dX).c_str( ), num( p.dY).c_str( ),
                     num( p.tdt_minus_ut1).c_str( ), num( p.dPsi).c_str( ), num( p.dEps).c_str( ));
               }
            else if( what < 92) { double t = rndf( -60., 60.); rec( "{\"op\":\"tdb\",\"t\":%s,\"v\":%s}", num( t).c_str( ), numl( tdb_minus_tdt( t)).c_str( )); }
            else rec( "{\"op\":\"tdbutc\",\"jd\":%s,\"utc\":%s,\"v\":%s}", num( jd).c_str( ), num( td_minus_utc( jd)).c_str( ), num( tdb_minus_utc( jd)).c_str( ));
            }
         }
      }
   rec_close( );
   return( 0);
}
