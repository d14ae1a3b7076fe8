/* Orientations from cospar.txt.   cospar N SCRATCHDIR REPO_COSPAR_TXT */
#include <math.h>
#include "rec.h"
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"
typedef std::string str;
static bool one_in( int n) { return( rnd( 1, n) == 1); }
static str fmtf( const char *f, ...) { char b[900]; va_list ap; va_start( ap, f); vsnprintf( b, sizeof( b), f, ap); va_end( ap); return( b); }
static str num( double v) { return( fmtf( "\"%.34g\"", v)); }
static str mat( const double *m, int n) { str r; for( int i = 0; i < n; i++) r += (i ? "," : "") + num( m[i]); return( "[" + r + "]"); }
static str sp( void) { return( str( rnd( 0, 2), ' ')); }
static str uns( void)
{
   switch( rnd( 0, 5))
      {
      case 0: return( fmtf( "%ld", rnd( 0, 400)));
      case 1: return( fmtf( "%.7f", rndf( 0., 1200.)));
      case 2: return( fmtf( "%.3f", rndf( 0., 2.)));
      case 3: return( fmtf( ".%06ld", rnd( 1, 999999)));
      case 4: return( fmtf( "%.2e", rndf( .001, 3.)));
      default: return( fmtf( "%ld.", rnd( 1, 900)));
      }
}
static str sgn( void) { return( sp( ) + (one_in( 2) ? "+" : "-") + sp( )); }
static str expression( char planet, int n_ang, bool is_w)
{
   str r = sp( ) + (one_in( 4) ? "-" : "") + (one_in( 3) ? fmtf( "%ld", rnd( 0, 360)) : fmtf( "%.6f", rndf( 0., 360.)));
   if( is_w || one_in( 2))
      {
      r += sgn( ) + (is_w ? (one_in( 3) ? fmtf( "%.7f", rndf( 0., 1200.)) : fmtf( "%ld", rnd( 1, 1200))) : fmtf( "%.4f", rndf( 0., 1.))) + (is_w && !one_in( 6) ? "d" : is_w ? "d" : one_in( 4) ? "d" : "T");
      if( one_in( 4)) r += sgn( ) + (one_in( 2) ? fmtf( "%.2fT2", rndf( 0., 9.)) : fmtf( "%.2e", rndf( 1e-13, 1e-11)) + "d2");
      }
   if( n_ang)
      for( int k = (int)rnd( 0, 4); k; k--)
         {
         r += sgn( ) + (one_in( 3) ? fmtf( "%.4f", rndf( 0., 9.)) : one_in( 3) ? ".25" : fmtf( "%.3e", rndf( 1e-5, 2.))) + sp( ) + (one_in( 2) ? "sin " : "cos ");
         if( one_in( 4)) r += fmtf( "%ld", rnd( 2, 9));
         r += fmtf( "%c%ld", planet, rnd( 1, n_ang));
         }
   return( r);
}
static std::vector<str> made_up( std::vector<long> &objs)
{
   std::vector<str> v;
   objs.clear( );
   if( one_in( 2)) v.push_back( "# made up");
   if( one_in( 2)) { str r = "Remap:"; for( int k = (int)rnd( 1, 4); k; k--) r += fmtf( " %ld %ld", rnd( 3, 6) * 1000 + rnd( 1, 3), rnd( 10, 20)) + sp( ); v.push_back( r); }
   for( int sec = (int)rnd( 1, 4); sec; sec--)
      {
      const char planet = "JSUNEMHpD"[rnd( 0, 8)];
      const int n_ang = one_in( 3) ? 0 : (int)rnd( 1, 13);
      v.push_back( "Planet:" + sp( ) + planet + (one_in( 3) ? "  # a comment; W=3+4d" : ""));
      if( one_in( 3)) v.push_back( "");
      for( int k = 1; k <= n_ang; k++)
         {
         v.push_back( sp( ) + fmtf( "%c%d", planet, k) + sp( ) + "=" + sp( ) + (one_in( 5) ? "-" : "") + fmtf( "%.4f", rndf( 1., 360.)) + sgn( ) + uns( ) + (one_in( 2) ? "d" : "T"));
         if( one_in( 9)) v.push_back( "   # between");
         }
      for( int o = (int)rnd( 0, 4); o; o--)
         {
         const long no = one_in( 3) ? rnd( 0, 9) : one_in( 3) ? rnd( 3, 6) * 1000 + rnd( 1, 3) : one_in( 2) ? rnd( 10, 20) : -rnd( 1, 30000);
         bool again = false;
         for( long x : objs) again |= (x == no);
         if( again || no == 3) continue;
         objs.push_back( no);
         v.push_back( "Obj:" + sp( ) + fmtf( "%ld", no) + (one_in( 2) ? "   # name" : ""));
         if( !one_in( 3))
            {
            str r = sp( ) + "r=" + fmtf( "%.1f", rndf( 1., 70000.));
            for( int k = (int)rnd( 0, 2); k; k--) r += "," + fmtf( "%.2f", rndf( 1., 70000.));
            v.push_back( r);
            }
         const bool bare = one_in( 6);          /* sizes only */
         if( !bare)
            {
            v.push_back( sp( ) + "a0" + sp( ) + "=" + expression( planet, n_ang, false));
            v.push_back( sp( ) + "d0" + sp( ) + "=" + expression( planet, n_ang, false));
            for( int w = 1; w < 4; w++)
               if( one_in( 4)) v.push_back( sp( ) + fmtf( "W%d", w) + "=" + expression( planet, n_ang, true) + "   # (d)");
            if( !one_in( 6)) v.push_back( sp( ) + "W=" + expression( planet, n_ang, true));
            }
         }
      }
   if( one_in( 2)) { v.push_back( "END of data"); v.push_back( "Obj: 7"); v.push_back( " W=1+2d"); }
   return( v);
}
static str lines_of( const std::vector<str> &v) { str r; for( size_t i = 0; i < v.size( ); i++) r += (i ? "," : "") + codes( v[i]); return( "[" + r + "]"); }
static void write_file( const str &name, const std::vector<str> &v)
{
   FILE *f = fopen( name.c_str( ), "wb");
   if( !f) { perror( name.c_str( )); exit( 3); }
   for( auto &l : v) fprintf( f, "%s%s", l.c_str( ), one_in( 40) ? "\r\n" : "\n");
   fclose( f);
}

int main( int argc, char **argv)
{
   const int n = atoi( argv[1]);
   const str dir = argv[2];
   rng_seed( env_seed( ) * 131 + 16);
   rec_open( );
   std::vector<str> real;
   std::vector<long> real_objs, objs;
   FILE *f = fopen( argv[3], "rb");
   char b[600];
   if( !f || chdir( dir.c_str( ))) { perror( "cospar"); return( 3); }
   while( fgets( b, sizeof( b), f))
      {
      b[strcspn( b, "\r\n")] = 0;
      real.push_back( b);
      if( !memcmp( b, "END", 3)) break;
      if( !memcmp( b, "Obj:", 4)) real_objs.push_back( atol( b + 4));
      }
   fclose( f);
   remove( "cospar.txt");
   bool real_in = false;
   double last_jd = 2451545.;
   long last_no = 5, last_sys = 0;
   for( int i = 0; i < n; i++)
      {
      if( !(i % 500))
         {
         load_cospar_file( NULL);
         remove( "cospar.txt");
         objs.clear( );
         real_in = false;
         rec( "{\"op\":\"start\"}");
         }
      const int what = i ? (int)rnd( 0, real_in ? 400 : 60) : 2;
      if( what == 0)
         {
         const bool there = !one_in( 3);
         std::vector<str> v = made_up( objs);
         if( there) write_file( "cospar.txt", v); else { remove( "cospar.txt"); v.clear( ); }
         rec( "{\"op\":\"disk\",\"there\":%d,\"lines\":%s}", there, lines_of( v).c_str( ));
         }
      else if( what <= 2)
         {
         const int kind = i ? (int)rnd( 0, 24) : 0;
         std::vector<str> v;
         int rc;
         inflight( "load_cospar_file kind %d", kind);
         if( kind == 0) { v = real; rc = load_cospar_file( argv[3]); objs = real_objs; real_in = true; }
         else if( kind == 1) { rc = load_cospar_file( "no/such/file"); real_in = false; }
         else if( kind == 2) { rc = load_cospar_file( NULL); real_in = false; }
         else { v = made_up( objs); write_file( "other.txt", v); rc = load_cospar_file( "other.txt"); real_in = false; }
         rec( "{\"op\":\"load\",\"kind\":\"%s\",\"rc\":%d,\"lines\":%s}", kind == 1 ? "missing" : kind == 2 ? "free" : kind ? "file" : "real", rc, lines_of( v).c_str( ));
         }
      else if( what == 3)
         {
         static str d;
         d = fmtf( "-10000,10000:%ld", rnd( 0, 200000));
         reset_td_minus_dt_string( one_in( 3) ? NULL : d.c_str( ));
         }
      else
         {
         long no = objs.empty( ) || one_in( 6) ? rnd( -5, 20) : objs[rnd( 0, (long)objs.size( ) - 1)];
         if( real_in && one_in( 3)) no = one_in( 4) ? rnd( -10, 199) : rnd( 0, 12);
         long sys = rnd( 0, 3);
         double jd = one_in( 2) ? rndf( 2400000., 2500000.) : one_in( 3) ? 2451545. : floor( rndf( 2000000., 3000000.)) + .5;
         if( one_in( 3)) { no = last_no; sys = last_sys; if( !one_in( 3)) jd = last_jd; else sys = rnd( 0, 3); }
         last_no = no; last_sys = sys; last_jd = jd;
         const int op = (int)rnd( 0, 5);
         double m[9], e[9];
         for( int k = 0; k < 9; k++) m[k] = 7777.;
         if( op == 0)
            {
            inflight( "planet_rotation_rate( %ld, %ld)", no, sys);
            m[0] = planet_rotation_rate( (int)no, (int)sys);
            rec( "{\"op\":\"rate\",\"no\":%ld,\"sys\":%ld,\"v\":%s}", no, sys, num( m[0]).c_str( ));
            }
         else if( op == 1)
            {
            inflight( "planet_radii( %ld)", no);
            const int rc = planet_radii( (int)no, m);
            rec( "{\"op\":\"radii\",\"no\":%ld,\"rc\":%d,\"v\":%s,\"over\":%s}", no, rc, mat( m, 3).c_str( ), num( m[3]).c_str( ));
            }
         else
            {
            inflight( "calc_planet_orientation( %ld, %ld, %.17g)", no, sys, jd);
            const int rc = calc_planet_orientation( (int)no, (int)sys, jd, m);
            const double dt = td_minus_ut( jd);
            if( no == 3)
               {
               setup_precession_with_nutation_eops( e, 2000. + (jd + dt / 86400. - 2451545.) / 365.25);
               rec( "{\"op\":\"earth\",\"rc\":%d,\"m\":%s,\"e\":%s}", rc, mat( m, 9).c_str( ), mat( e, 9).c_str( ));
               }
            else
               rec( "{\"op\":\"orient\",\"no\":%ld,\"sys\":%ld,\"jd\":%s,\"dt\":%s,\"rc\":%d,\"m\":%s}", no, sys, num( jd).c_str( ), num( dt).c_str( ), rc, mat( m, 9).c_str( ));
            }
         }
      }
   rec_close( );
   return( 0);
}
