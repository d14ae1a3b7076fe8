/* Orbits as text.   orbfile N SCRATCHDIR MPC2SOF */
#include <math.h>
#include "rec.h"
#include "watdefs.h"
#include "comets.h"
#include "showelem.h"
#include "date.h"
#include "afuncs.h"
typedef std::string str;
typedef std::vector<str> strs;
long extract_mpcorb_dat( ELEMENTS *elem, const char *buff);
long extract_astorb_dat( ELEMENTS *elem, const char *buff);
static const double PI = 3.14159265358979323846, SUN = .01720209895 * .01720209895;
static bool one_in( int n) { return( rnd( 1, n) == 1); }
static str num( double v) { char b[80]; snprintf( b, sizeof( b), "\"%.34g\"", v); return( b); }
static str fmtf( const char *f, ...) { char b[900]; va_list ap; va_start( ap, f); vsnprintf( b, sizeof( b), f, ap); va_end( ap); return( b); }
static str pad( str s, size_t w) { if( s.size( ) < w) s.resize( w, ' '); return( s); }
static str lines( const strs &v) { str r; for( auto &s : v) r += (r.empty( ) ? "" : ",") + codes( s); return( "[" + r + "]"); }
static str ymd( bool frac, long lo = 1600, long hi = 2400)
{
   static const int ml[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
   const long y = rnd( lo, hi), m = rnd( 1, 12);
   long d = one_in( 5) ? ml[m - 1] : rnd( 1, ml[m - 1]);
   if( m == 2 && y % 4 == 0 && y % 100 && one_in( 4)) d = 29;
   return( fmtf( "%04ld%02ld%02ld", y, m, d) + (frac ? fmtf( "%.*f", (int)rnd( 1, 7), rndf( 0., .999)).substr( 1) : str( )));
}
static str got( const ELEMENTS &e)
{
   return( "{\"T\":" + num( e.perih_time) + ",\"q\":" + num( e.q) + ",\"e\":" + num( e.ecc) + ",\"i\":" + num( e.incl) + ",\"w\":" + num( e.arg_per) + ",\"n\":" + num( e.asc_node)
        + ",\"gm\":" + num( e.gm) + ",\"epoch\":" + num( e.epoch) + ",\"M\":" + num( e.mean_anomaly) + ",\"a\":" + num( e.major_axis) + ",\"t0\":" + num( e.t0) + ",\"H\":" + num( e.abs_mag)
        + ",\"G\":" + num( e.slope_param) + ",\"ast\":" + (e.is_asteroid ? "true" : "false") + ",\"cen\":" + std::to_string( e.central_obj) + "}");
}
static void junk( ELEMENTS &e) { unsigned char *p = (unsigned char *)&e; const int z = (int)rnd( 0, 1); for( size_t i = 0; i < sizeof( e); i++) p[i] = z ? 0x41 : 0; }
static str real_text( int width, double lo, double hi, int max_dec)
{
   str r = fmtf( "%.*f", (int)rnd( 1, max_dec), rndf( lo, hi));
   if( (int)r.size( ) > width) r.resize( width);
   if( r.back( ) == '.') r.pop_back( );
   return( r);
}
static void sof( void)
{
   struct col { const char *name; int w; } all[] = { { "Name", 12 }, { "Tp", 16 }, { "Te", 9 }, { "q", 11 }, { "i  .", 10 }, { "Om .", 10 }, { "om .", 10 }, { "e", 10 },
            { "rms", 5 }, { "n_o", 5 }, { "Tf", 9 }, { "Tl", 8 }, { "Perts", 7 }, { "H .", 6 }, { "G .", 6 }, { "C ", 3 }, { "Tw", 8 }, { "MOID", 9 }, { "P ", 4 }, { "q2", 8 } };
   std::vector<col> cs;
   for( auto &c : all)
      {
      const bool needed = (c.name[0] == 'T' && c.name[1] == 'p') || !strcmp( c.name, "q") || c.name[0] == 'i' || !strncmp( c.name, "O", 1) || !strncmp( c.name, "o", 1) || !strcmp( c.name, "e");
      if( one_in( needed ? 40 : 3)) continue;
      cs.push_back( c);
      }
   if( one_in( 2)) for( size_t k = cs.size( ); k > 1; k--) std::swap( cs[k - 1], cs[(size_t)rnd( 0, (long)k - 1)]);
   str h, l;
   for( size_t k = 0; k < cs.size( ); k++)
      {
      str nm = cs[k].name, v;
      int w = cs[k].w + (one_in( 3) ? (int)rnd( 0, 4) : 0);
      if( nm.size( ) == 1) nm += ' ';
      if( (int)nm.size( ) > w) w = (int)nm.size( );
      if( one_in( 60)) w = (int)rnd( 70, 79);
      switch( nm[0])
         {
         case 'T': v = ymd( w > 12 ? !one_in( 6) : false); break;
         case 'q': v = nm == "q2" ? "7.7" : real_text( w, .01, one_in( 3) ? 60. : 3., 9); break;
         case 'i': v = real_text( w, 0., 180., 7); break;
         case 'O': case 'o': v = real_text( w, 0., 360., 7); break;
         case 'e': v = one_in( 6) ? "1.0" : one_in( 4) ? real_text( w, 1., 3., 8) : real_text( w, 0., 1., 9); break;
         case 'H': v = one_in( 5) ? "" : real_text( w, -2., 30., 2); break;
         case 'G': v = one_in( 5) ? "" : real_text( w, -.2, .9, 2); break;
         case 'r': v = real_text( w, 0., 3., 2); break;
         case 'C': v = one_in( 3) ? "3" : one_in( 3) ? "10" : "0"; break;
         case 'N': v = one_in( 3) ? "2021 AB12" : one_in( 2) ? "C/2020 F3" : "  1234"; break;
         default: v = one_in( 2) ? "" : "0.0123"; break;
         }
      v = v.substr( 0, w);
      const str blank( (size_t)( w - (int)v.size( )), ' ');
      v = one_in( 2) && nm[0] != 'N' ? blank + v : v + blank;
      h += pad( nm, w) + "|";
      l += v + (one_in( 12) ? "|" : " ");
      }
   if( h.size( )) h.back( ) = one_in( 2) ? '\n' : '|';
   if( h.size( ) && one_in( 40)) h += "x|";
   if( one_in( 2)) h = h.substr( 0, h.size( ));
   if( one_in( 6)) l = l.substr( 0, (size_t)rnd( 0, (long)l.size( )));           /* cut short */
   while( one_in( 3) && l.size( ) && l.back( ) == ' ') l.pop_back( );
   if( one_in( 2)) l += "\n";
   char *hh = strdup( h.c_str( )), *ll = strdup( l.c_str( ));
   ELEMENTS e; junk( e);
   double ex[4] = { 7., 7., 7., 7. };
   const bool want = !one_in( 3);
   inflight( "extract_sof_data_ex [%s] [%s]", ll, hh);
   const int rc = want || one_in( 2) ? extract_sof_data_ex( &e, ll, hh, want ? ex : NULL) : extract_sof_data( &e, ll, hh);
   str exs = "[";
   if( want) exs += num( ex[0]) + "," + num( ex[1]) + "," + num( ex[2]) + "," + num( ex[3]);
   rec( "{\"op\":\"sof\",\"h\":%s,\"l\":%s,\"rc\":%d,\"ex\":%s],\"got\":%s}", codes( h).c_str( ), codes( l).c_str( ), rc, exs.c_str( ), rc ? "0" : got( e).c_str( ));
   free( hh); free( ll);
}
static char ext( long v) { return( (char)( v < 10 ? '0' + v : v < 36 ? 'A' + v - 10 : 'a' + v - 36)); }
static str packed_day( void) { const str d = ymd( false, 1700, 2199); const long y = atol( d.substr( 0, 4).c_str( )); return( str( ) + ext( y / 100) + d.substr( 2, 2) + ext( atol( d.substr( 4, 2).c_str( ))) + ext( atol( d.substr( 6, 2).c_str( )))); }
static str mpcorb_line( bool clean)
{
   str l( 202, ' ');
   auto put = [&]( size_t k, const str &s) { l.replace( k, s.size( ), s); };
   const double a = one_in( 6) ? rndf( 20., 900.) : rndf( .6, 5.5), ecc = a > 90. ? 1. - rndf( .005, 90. / a) : one_in( 6) ? rndf( .8, .9999) : rndf( 0., .7);
   const bool numbered = one_in( 2);
   put( 0, fmtf( "%05ld", rnd( 1, 99999)));
   if( clean || !one_in( 6)) put( 8, fmtf( "%5.2f", rndf( one_in( 4) ? -2. : 3., 33.)));
   if( clean || !one_in( 6)) put( 14, fmtf( "%5.2f", one_in( 4) ? rndf( -.3, .9) : .15));
   put( 20, packed_day( ));
   const double far = a > 50. ? 90000. * .9856 / (a * sqrt( a)) : 180.;       /* perihelion within centuries */
   put( 26, fmtf( "%9.5f", one_in( 9) && far == 180. ? 180. : one_in( 2) ? rndf( 0., far) : rndf( 360. - far, 359.999)));
   put( 37, fmtf( "%9.5f", rndf( 0., 360.)));
   put( 48, fmtf( "%9.5f", rndf( 0., 360.)));
   put( 59, fmtf( "%9.5f", rndf( 0., 180.)));
   put( 70, fmtf( "%9.7f", ecc));
   put( 80, fmtf( "%11.8f", .9856076686 / (a * sqrt( a))));
   put( 92, fmtf( "%11.7f", a));
   put( 107, "MPO123456");
   put( 117, fmtf( "%5ld", rnd( 3, 9999)));
   put( 123, fmtf( "%3ld", rnd( 1, 60)));
   const long y1 = rnd( 1801, 2030);
   if( one_in( 3)) put( 127, fmtf( "%4ld days", rnd( 1, 300)));
   else put( 127, fmtf( "%4ld-%4ld", y1, rnd( y1, 2099)));
   put( 137, fmtf( "%4.2f", rndf( 0., 3.)));
   put( 142, one_in( 2) ? "M-v" : "   ");
   put( 146, one_in( 2) ? "38h" : "   ");
   put( 150, "MPCLINUX");
   put( 161, "0000");
   const str desig = fmtf( "%ld %c%c%ld", rnd( 1950, 2030), (char)( 'A' + rnd( 0, 23)), (char)( 'A' + rnd( 0, 24)), rnd( 1, 350));
   if( numbered) put( 166, fmtf( "%7s", fmtf( "(%ld", one_in( 4) ? rnd( 100000, 620000) : rnd( 1, 99999)).c_str( ))), l[173] = ')', put( 175, one_in( 2) ? "Ceres" : desig);
   else if( one_in( 5)) put( 166, "K21xyz1");
   else put( 175, desig);
   put( 194, ymd( false, 1801, 2099));
   if( !clean && one_in( 8)) l[(size_t)( one_in( 5) ? 47 : one_in( 4) ? 82 : one_in( 3) ? 25 : one_in( 2) ? 29 : 36)] = 'x';
   if( !clean && one_in( 12)) l.resize( (size_t)rnd( 0, 202));
   return( l);
}
static void mpcorb( void)
{
   const str l = mpcorb_line( false);
   char *b = strdup( l.c_str( ));
   ELEMENTS e; junk( e);
   inflight( "extract_mpcorb_dat [%s]", b);
   const long rc = extract_mpcorb_dat( &e, b), rc2 = extract_mpcorb_dat( NULL, b);
   if( rc2 != rc) rec( "{\"op\":\"null differs\"}");
   rec( "{\"op\":\"mpcorb\",\"l\":%s,\"rc\":%ld,\"got\":%s}", codes( l).c_str( ), rc, rc ? got( e).c_str( ) : "0");
   free( b);
}
static void astorb( void)
{
   str l( 268, ' ');
   auto put = [&]( size_t k, const str &s) { l.replace( k, s.size( ), s); };
   put( 0, "     1 Ceres              E. Bowell");
   put( 42, fmtf( "%5.2f", rndf( -2., 33.)));
   put( 48, fmtf( "%5.2f", rndf( -.3, .9)));
   put( 54, "0.72 848.4 G?   0   0   0   0   0   0");
   put( 106, ymd( false, 1800, 2199));
   put( 115, fmtf( "%10.6f", one_in( 9) ? 180. : rndf( 0., 360.)));
   put( 126, fmtf( "%10.6f", rndf( 0., 360.)));
   put( 137, fmtf( "%10.6f", rndf( 0., 360.)));
   put( 148, fmtf( "%9.6f", rndf( 0., one_in( 2) ? 30. : 99.9)));
   put( 158, fmtf( "%10.8f", rndf( 0., .9999)));
   put( 169, fmtf( "%12.8f", one_in( 4) ? rndf( 20., 900.) : rndf( .6, 5.)));
   put( 182, "20210101 1.2E-02 -3.1E-05 20210301");
   if( one_in( 10)) l.resize( (size_t)rnd( 0, 267));
   char *b = strdup( l.c_str( ));
   ELEMENTS e; junk( e);
   inflight( "extract_astorb_dat [%s]", b);
   const long rc = extract_astorb_dat( &e, b), rc2 = extract_astorb_dat( NULL, b);
   if( rc2 != rc) rec( "{\"op\":\"null differs\"}");
   if( l.size( ) < 268) rec( "{\"op\":\"short\",\"rc\":%ld}", rc);
   else rec( "{\"op\":\"astorb\",\"l\":%s,\"rc\":%ld,\"got\":%s}", codes( l).c_str( ), rc, got( e).c_str( ));
   free( b);
}
static str comet_line( void)
{
   str nm;
   static const char *names[] = { "Halley", "Schwassmann-Wachmann 3", "Tempel 1", "Swift-Tuttle", "d'Arrest" };
   const long y = rnd( 1700, 2099);
   if( one_in( 2)) nm = fmtf( "   %c/%ld %c%ld (%s)", "CPDA"[rnd( 0, 3)], y, (char)( 'A' + rnd( 0, 23)), rnd( 1, 99), names[rnd( 0, 3)]);
   else { nm = fmtf( "%3ldP/%s", rnd( 1, 400), one_in( 2) ? "Halley" : "d'Arrest 2"); if( one_in( 3)) nm += one_in( 2) ? "-C" : "-AB"; }
   return( pad( nm, 43) + fmtf( " %7ld %11.8f %10.8f %9.5f %9.5f %9.5f %s JPL 32/1", rnd( 0, one_in( 4) ? 9999 : 69999), rndf( .005, one_in( 3) ? 30. : 3.), one_in( 4) ? 1. : rndf( .1, 1.2), rndf( 0., 180.), rndf( 0., 360.), rndf( 0., 360.),
         (ymd( false, 1700, 2199) + fmtf( "%.5f", rndf( 0., .99999)).substr( 1)).c_str( )));
}
static strs read_lines( const str &path) { strs r; FILE *f = fopen( path.c_str( ), "rb"); char b[1000]; if( f) { while( fgets( b, sizeof( b), f)) { str s = b; while( s.size( ) && (s.back( ) == '\n')) s.pop_back( ); r.push_back( s); } fclose( f); } return( r); }
static void convert( const str &dir, const str &exe)
{
   strs a, c;
   for( long k = rnd( 0, one_in( 3) ? 40 : 6); k; k--) a.push_back( one_in( 8) ? "header or blank line" : mpcorb_line( true));
   const bool none = one_in( 6);
   for( long k = none ? 0 : rnd( 0, one_in( 3) ? 50 : 5); k; k--) c.push_back( comet_line( ));
   FILE *f = fopen( (dir + "/ast.dat").c_str( ), "wb"); for( auto &s : a) fprintf( f, "%s\n", s.c_str( )); fclose( f);
   f = fopen( (dir + "/com.dat").c_str( ), "wb"); fprintf( f, "Num  Name\n-----\n"); for( auto &s : c) fprintf( f, "%s\n", s.c_str( )); fclose( f);
   remove( (dir + "/mpcorb.sof").c_str( ));
   inflight( "mpc2sof %d asteroids %d comets", (int)a.size( ), (int)c.size( ));
   fflush( rec_fp);
   const int rc = system( ("cd '" + dir + "' && timeout 20 '" + exe + "' ast.dat " + (none ? "i" : "com.dat") + " > /dev/null 2>&1").c_str( ));
   rec( "{\"op\":\"conv\",\"ast\":%s,\"com\":%s,\"rc\":%d,\"out\":%s}", lines( a).c_str( ), lines( c).c_str( ), rc, lines( read_lines( dir + "/mpcorb.sof")).c_str( ));
}
static double ang( double top) { return( one_in( 12) ? 0. : rndf( .001, top)); }
static void text( void)
{
   ELEMENTS e;
   memset( &e, 0, sizeof( e));
   static const int cens[] = { 0, 0, 0, 3, 3, 10, -1, 5, 1, 2, 4, 6, 7, 8, 9, 11, 99 };
   e.central_obj = cens[rnd( 0, 16)];
   const bool sun = e.central_obj <= 0, geo = e.central_obj == 3 || e.central_obj == 10;
   e.gm = sun ? SUN : SUN * (geo ? 3.0034896e-6 : 9.5e-4);
   e.q = sun ? pow( 10., rndf( -2.5, one_in( 5) ? 3.8 : 1.3)) : pow( 10., rndf( -4.35, -2.));
   e.ecc = one_in( 4) ? rndf( 1., 4.) : one_in( 3) ? rndf( .9, .99999) : rndf( .001, .95);
   if( one_in( 15)) e.ecc = 1.;
   e.incl = ang( PI);
   e.arg_per = ang( 2. * PI) - (one_in( 6) ? 2. * PI : 0.);
   e.asc_node = ang( 2. * PI) - (one_in( 6) ? 2. * PI : 0.);
   e.epoch = one_in( 3) ? 2451545. + (double)rnd( -90000, 90000) / 2. : 2451545. + rndf( -60000., 60000.);
   if( one_in( 5)) e.epoch = floor( e.epoch * 1000.) / 1000.;
   if( one_in( 12)) e.epoch = rndf( 300000., 2990000.);
   e.perih_time = e.epoch + (one_in( 3) ? rndf( -5e5, 5e5) : rndf( -500., 500.));
   if( one_in( 8)) e.perih_time = floor( e.perih_time) + .5 - pow( 10., -rndf( .2, 6.));   /* just before midnight */
   if( one_in( 8)) e.epoch = floor( e.epoch) + .5 - pow( 10., -rndf( 5., 7.5));
   if( one_in( 20)) e.perih_time = one_in( 2) ? rndf( -1e5, 1.9) : rndf( 3000001., 4e6);
   if( e.arg_per == -2. * PI || e.asc_node == -2. * PI) e.arg_per = e.asc_node = 1.;
   derive_quantities( &e, e.gm);
   if( e.t0 && 1. / e.t0 > 9990. * PI / 180.) { text( ); return; }        /* faster than anything could be */
   if( e.ecc > 1. && !one_in( 4)) e.major_axis = -e.major_axis;     /* as calc_classical_elements has it */
   if( e.ecc != 1.) e.mean_anomaly = fmod( (e.epoch - e.perih_time) / e.t0, 2. * PI);
   if( fabs( e.mean_anomaly) < 1e-9) e.mean_anomaly = 1e-3;
   e.is_asteroid = !one_in( 2);
   if( !one_in( 4)) e.abs_mag = rndf( one_in( 5) ? -5. : 1., 35.), e.slope_param = e.is_asteroid ? rndf( -.2, 1.) : rndf( 1., 30.);
   if( fabs( e.abs_mag) < .01) e.abs_mag = 0.;
   const int p = (int)( one_in( 2) ? rnd( 0, 15) : rnd( 4, 9));
   const bool com = one_in( 6), ptime = one_in( 2), nopq = one_in( 3), nuc = one_in( 3);
   const int flags = p | (ptime ? SHOWELEM_PERIH_TIME_MASK : 0) | (nopq ? SHOWELEM_OMIT_PQ_MASK : 0) | (nuc ? SHOWELEM_COMET_MAGS_NUCLEAR : 0);
   const str id = one_in( 3) ? "Orbital elements:  2004 MN4" : one_in( 2) ? "" : "C/2020 F3 (NEOWISE)";
   const size_t size = (size_t)rnd( 700, 900);
   char *b = (char *)malloc( size);
   memset( b, 'x', size);
   inflight( "elements_in_mpc_format %s p %d com %d", got( e).c_str( ), p, (int)com);
   const int rc = elements_in_mpc_format( b, size, &e, id.c_str( ), com, flags);
   strs ls;
   const char *t = b;
   for( int k = 0; k < rc && k < 10 && t < b + size; k++) { ls.push_back( t); t += strlen( t) + 1; }
   rec( "{\"op\":\"text\",\"p\":%d,\"com\":%s,\"ptime\":%s,\"nopq\":%s,\"nuc\":%s,\"id\":%s,\"rc\":%d,\"el\":%s,\"ls\":%s}", p, com ? "true" : "false", ptime ? "true" : "false", nopq ? "true" : "false", nuc ? "true" : "false",
         codes( id).c_str( ), rc, got( e).c_str( ), lines( ls).c_str( ));
   free( b);
}
int main( int argc, char **argv)
{
   const int n = atoi( argv[1]);
   rng_seed( env_seed( ) * 131 + 19);
   rec_open( );
   if( !freopen( "/dev/null", "w", stdout)) return( 3);
   for( int i = 0; i < n; i++)
      if( one_in( 60)) convert( argv[2], argv[3]);
      else switch( rnd( 0, 6))
         {
         case 0: case 1: sof( ); break;
         case 2: mpcorb( ); break;
         case 3: astorb( ); break;
         default: text( ); break;
         }
   rec_close( );
   return( 0);
}
