/* Places from series kept in data files (made up here).   series N SCRATCHDIR */
#include <math.h>
#include <fcntl.h>
#include <algorithm>
#include <sys/stat.h>
#include "rec.h"
#include "watdefs.h"
#include "lunar.h"
#include "afuncs.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes( void);
typedef std::string str;
typedef std::vector<double> vec;
static bool one_in( int n) { return( rnd( 1, n) == 1); }
static str num( double v) { char b[60]; snprintf( b, sizeof( b), "\"%.34g\"", v); return( b); }
static str nums( const double *v, size_t n) { str r = "["; for( size_t i = 0; i < n; i++) r += (i ? "," : "") + num( v[i]); return( r + "]"); }
static str join( const std::vector<str> &v) { str r = "["; for( size_t i = 0; i < v.size( ); i++) r += (i ? "," : "") + v[i]; return( r + "]"); }
static double scaled( double top) { return( (one_in( 2) ? 1 : -1) * top * pow( 10., -rndf( 0., 6.))); }
static int files_open( void) { int n = 0; for( int i = 3; i < 200; i++) if( fcntl( i, F_GETFD) != -1) n++; return( n); }
struct Before { int f; size_t b; void now( void) { f = files_open( ); b = __sanitizer_get_current_allocated_bytes( ); }
   str left( void) { const size_t a = __sanitizer_get_current_allocated_bytes( ); const int g = files_open( );
      char t[60]; snprintf( t, sizeof( t), "\"left\":[%d,%ld]", g - f, (long)a - (long)b); return( t); } };
static Before was;
static double a_time( void)                 /* centuries from 2000, exactly representable or not */
{
   switch( rnd( 0, 9))
      {
      case 0: return( 0.);
      case 1: return( (double)rnd( -8, 8));
      case 2: return( scaled( 1.));
      case 3: return( rndf( -40., 40.));
      default: return( rndf( -2., 2.));
      }
}
static void put( str &s, const void *p, size_t n) { s.append( (const char *)p, n); }
static void save( const str &name, const str &s, size_t n) { FILE *f = fopen( name.c_str( ), "wb"); if( !f) exit( 3); fwrite( s.data( ), 1, n, f); fclose( f); }

/* ---------------------------------------------------------------- VSOP */
struct Vsop { int16_t hdr[145]; std::vector<double> terms; };
static str six( const Vsop &v, int planet, int value)
{
   std::vector<str> s;
   for( int n = 0; n < 6; n++)
      {
      const int k = (planet - 1) * 18 + value * 6 + n;
      std::vector<str> q;
      for( int j = v.hdr[k]; j < v.hdr[k + 1]; j++)
         q.push_back( nums( &v.terms[(size_t)j * 3], 3));
      s.push_back( join( q));
      }
   return( join( s));
}
static void fill_terms( Vsop &v, double scale)
{
   v.terms.resize( (size_t)v.hdr[144] * 3);
   for( size_t i = 0; i < v.terms.size( ); i += 3)
      {
      v.terms[i] = one_in( 60) ? 0. : scaled( scale);
      v.terms[i + 1] = one_in( 5) ? 0. : rndf( -7., 7.);
      v.terms[i + 2] = one_in( 5) ? 0. : rndf( -1., 1.) * pow( 10., rndf( 0., 4.5));
      }
}
struct Big { Vsop v; str bytes, name; FILE *f; };
static Big make_big( const str &name)
{
   Big b;
   int16_t at = 0;
   for( int i = 0; i < 145; i++)
      {
      b.v.hdr[i] = at;
      if( !one_in( 3)) at = (int16_t)( at + rnd( 0, 5));
      }
   fill_terms( b.v, 3.);
   put( b.bytes, b.v.hdr, 290);
   put( b.bytes, b.v.terms.data( ), b.v.terms.size( ) * 8);
   b.name = name;
   save( name, b.bytes, b.bytes.size( ));
   b.f = fopen( name.c_str( ), "rb");
   fgetc( b.f);
   return( b);
}
static void ask_big( Big &b, bool by_name)
{
   const int planet = one_in( 40) ? 0 : (int)rnd( 1, 8);
   const double t = a_time( ), limit = one_in( 2) ? 0. : one_in( 4) ? fabs( b.v.terms[(size_t)rnd( 0, (long)b.v.terms.size( ) / 3 - 1) * 3]) : scaled( .1);
   double out[3] = { 9., 9., 9. };
   if( by_name) save( "big_vsop.bin", b.bytes, b.bytes.size( ));
   inflight( "calc_big_vsop_loc planet %d t %.17g", planet, t);
   was.now( );
   const int rc = calc_big_vsop_loc( by_name ? NULL : b.f, planet, out, t, limit);
   const str left = was.left( );
   if( !planet)
      rec( "{\"op\":\"sun\",\"rc\":%d,\"out\":%s,%s}", rc, nums( out, 3).c_str( ), left.c_str( ));
   else
      rec( "{\"op\":\"big\",\"planet\":%d,\"six\":[%s,%s,%s],\"t\":%s,\"limit\":%s,\"rc\":%d,\"out\":%s,%s}", planet, six( b.v, planet, 0).c_str( ), six( b.v, planet, 1).c_str( ),
            six( b.v, planet, 2).c_str( ), num( t).c_str( ), num( limit).c_str( ), rc, nums( out, 3).c_str( ), left.c_str( ));
}
static void ask_cut( Big &b, bool by_name)
{
   const int planet = (int)rnd( 1, 8), first = b.v.hdr[(planet - 1) * 18], last = b.v.hdr[planet * 18];
   size_t n = 290 + (size_t)last * 24;
   if( one_in( 3)) n = (size_t)( rnd( 0, (planet - 1) * 36 + 37));
   else if( last == first) return;
   else n = (size_t)rnd( 290 + first * 24, (long)n - 1);
   save( by_name ? "big_vsop.bin" : "cut.bin", b.bytes, n);
   FILE *f = by_name ? NULL : fopen( "cut.bin", "rb");
   double out[3] = { 9., 9., 9. };
   if( f) fgetc( f);
   inflight( "calc_big_vsop_loc planet %d, file of %d bytes", planet, (int)n);
   was.now( );
   const int rc = calc_big_vsop_loc( f, planet, out, a_time( ), 0.);
   const str left = was.left( );
   if( f) fclose( f);
   rec( "{\"op\":\"cut\",\"planet\":%d,\"bytes\":%d,\"rc\":%d,%s}", planet, (int)n, rc, left.c_str( ));
}

/* ---------------------------------------------------------------- vsop.bin, with the Moon and Pluto */
#define SMALL_SIZE 60874
struct Small { Vsop v; char *p; int8_t lon[60][4], lat[60][4]; int32_t amp[60][3]; double polys[5][5]; int32_t large[7][6]; int8_t jsp[36][3]; int16_t rows[36][6]; };
static void make_small( Small &s)
{
   std::vector<int> h;
   const int tenth = (int)rnd( 0, 1) * 256 + 120;
   auto between = [&]( int lo, int hi, int n) { std::vector<int> q; while( n--) q.push_back( (int)rnd( lo, hi)); std::sort( q.begin( ), q.end( )); h.insert( h.end( ), q.begin( ), q.end( )); };
   h = { 0, 38 }; between( 38, tenth, 8); h.push_back( tenth);
   between( tenth, 0x93e, 123); h.push_back( 0x93e); between( 0x93e, 0x97e, 9); h.push_back( 0x97e);
   for( int i = 0; i < 145; i++) s.v.hdr[i] = (int16_t)h[i];
   fill_terms( s.v, 3.e+8);
   str b;
   put( b, s.v.hdr, 290);
   put( b, s.v.terms.data( ), s.v.terms.size( ) * 8);
   for( auto &r : s.large) for( auto &a : r) a = (int32_t)scaled( 2.5e+7);
   put( b, s.large, sizeof( s.large));
   for( int i = 0; i < 36; i++)
      {
      for( int k = 0; k < 3; k++) s.jsp[i][k] = (int8_t)( k == 1 ? rnd( -2, 2) : rnd( -5, 5));
      for( int k = 0; k < 6; k++) s.rows[i][k] = (int16_t)( one_in( 4) ? 0 : scaled( 32767.));
      put( b, s.jsp[i], 3); b += (char)rnd( 0, 255);
      put( b, s.rows[i], 12);
      }
   for( int i = 0; i < 60; i++)
      {
      for( int k = 0; k < 4; k++) { s.lon[i][k] = (int8_t)( k == 1 ? rnd( -3, 3) : rnd( -9, 9)); s.lat[i][k] = (int8_t)rnd( -6, 6); }
      for( int k = 0; k < 3; k++) s.amp[i][k] = one_in( 5) ? 0 : (int32_t)scaled( one_in( 10) ? 2.e+9 : 7.e+6);
      }
   const int8_t a[4] = { 0, 0, 1, 0 }, c[4] = { 0, 0, 0, 1 };
   memcpy( s.lon[0], a, 4); memcpy( s.lat[0], c, 4);
   s.amp[46][1] = (s.amp[46][1] & ~0xff) | 'q';
   for( int i = 0; i < 60; i++) { put( b, s.lon[i], 4); put( b, s.amp[i], 8); }
   for( int i = 0; i < 60; i++) { put( b, s.lat[i], 4); put( b, s.amp[i] + 2, 4); }
   for( int i = 0; i < 5; i++) for( int k = 0; k < 5; k++)
      s.polys[i][k] = k == 0 ? rndf( 0., 360.) : k == 1 ? rndf( -500000., 500000.) : scaled( k == 2 ? .01 : 1.e-6);
   uint64_t u; memcpy( &u, &s.polys[0][0], 8); u = (u & 0xffffffff00000000ull) | 0x6ed5a0b1ull; memcpy( &s.polys[0][0], &u, 8);
   put( b, s.polys, sizeof( s.polys));
   b.resize( SMALL_SIZE, 0);
   s.p = (char *)malloc( SMALL_SIZE + 2) + 2;       /* so that Pluto's integers are aligned */
   memcpy( s.p, b.data( ), SMALL_SIZE);
}
static str moon_terms( const int8_t t[60][4], const int32_t amp[60][3], bool lat)
{
   std::vector<str> q;
   char x[80];
   for( int i = 0; i < 60; i++)
      {
      if( lat) snprintf( x, sizeof( x), "[%d,%d,%d,%d,%d]", t[i][0], t[i][1], t[i][2], t[i][3], amp[i][2]);
      else snprintf( x, sizeof( x), "[%d,%d,%d,%d,%d,%d]", t[i][0], t[i][1], t[i][2], t[i][3], amp[i][0], amp[i][1]);
      q.push_back( x);
      }
   return( join( q));
}
static void ask_small( Small &s)
{
   const double t = a_time( );
   const int k = (int)rnd( 0, 9);
   if( k < 4)
      {
      const int planet = (int)rnd( 1, 8), value = (int)rnd( 0, 2);
      const double limit = one_in( 2) ? 0. : scaled( 1.e+7);
      inflight( "calc_vsop_loc planet %d value %d t %.17g limit %.17g", planet, value, t, limit);
      const double out = calc_vsop_loc( s.p, planet, value, t, limit);
      rec( "{\"op\":\"short\",\"planet\":%d,\"value\":%d,\"six\":[%s],\"t\":%s,\"limit\":%s,\"out\":%s}", planet, value, six( s.v, planet, value).c_str( ), num( t).c_str( ), num( limit).c_str( ), num( out).c_str( ));
      }
   else if( k < 6)
      {
      const long limit = one_in( 2) ? 0 : one_in( 3) ? rnd( 0, 5) + (one_in( 2) ? 2233 : 3956) : (long)fabs( scaled( 1.e+6));
      double f[9], lon, r;
      std::vector<str> polys;
      double size = 5e+5 * fabs( t);
      inflight( "lunar t %.17g limit %ld", t, limit);
      lunar_fundamentals( s.p, t, f);
      for( int i = 0; i < 5; i++)
         {
         double x = 0.;
         for( int j = 0; j < 5; j++) x += fabs( s.polys[i][j]) * pow( fabs( t), j);
         size = std::max( size, x);
         polys.push_back( nums( s.polys[i], 5));
         }
      rec( "{\"op\":\"moonargs\",\"polys\":%s,\"t\":%s,\"out\":%s,\"size\":%s}", join( polys).c_str( ), num( t).c_str( ), nums( f, 9).c_str( ), num( size).c_str( ));
      lunar_lon_and_dist( s.p, f, &lon, &r, limit);
      rec( "{\"op\":\"moonlon\",\"f\":%s,\"terms\":%s,\"limit\":%ld,\"lon\":%s,\"r\":%s}", nums( f, 9).c_str( ), moon_terms( s.lon, s.amp, false).c_str( ), limit, num( lon).c_str( ), num( r).c_str( ));
      const double lat = lunar_lat( s.p, f, limit);
      rec( "{\"op\":\"moonlat\",\"f\":%s,\"terms\":%s,\"limit\":%ld,\"out\":%s}", nums( f, 9).c_str( ), moon_terms( s.lat, s.amp, true).c_str( ), limit, num( lat).c_str( ));
      }
   else if( k < 7)
      {
      const long limit = one_in( 2) ? 0 : rnd( 0, 20000);
      double out[3];
      std::vector<str> large, rows;
      inflight( "calc_pluto_loc t %.17g limit %ld", t, limit);
      calc_pluto_loc( s.p, out, t, limit);
      for( auto &q : s.large) { long v[6]; for( int i = 0; i < 6; i++) v[i] = q[i]; large.push_back( ints( v, 6)); }
      for( int i = 0; i < 36; i++) { long v[9]; for( int j = 0; j < 9; j++) v[j] = j < 3 ? s.jsp[i][j] : s.rows[i][j - 3]; rows.push_back( ints( v, 9)); }
      rec( "{\"op\":\"pluto\",\"large\":%s,\"rows\":%s,\"t\":%s,\"limit\":%ld,\"out\":%s}", join( large).c_str( ), join( rows).c_str( ), num( t).c_str( ), limit, nums( out, 3).c_str( ));
      }
   else
      {
      const int planet = (int)rnd( 0, 10);
      const double tt = t != 0. && fabs( t) < 2e-7 ? .5 : t;
      double out[15], place[3];
      inflight( "compute_planet %d t %.17g", planet, tt);
      if( planet == 10)
         {
         double f[9];
         lunar_fundamentals( s.p, tt, f);
         lunar_lon_and_dist( s.p, f, place, place + 2, 0);
         place[0] *= M_PI / 180.; place[1] = lunar_lat( s.p, f, 0) * (M_PI / 180.); place[2] /= AU_IN_KM;
         }
      else if( planet == 9)
         calc_pluto_loc( s.p, place, tt, 0);
      else
         for( int i = 0; i < 3; i++) place[i] = calc_vsop_loc( s.p, planet, i, tt, 0.);
      compute_planet( s.p, planet, tt, out);
      rec( "{\"op\":\"%s\",\"planet\":%d,\"t\":%s,\"place\":%s,\"out\":%s}", planet == 9 ? "plutoframes" : "frames", planet, num( tt).c_str( ), nums( place, 3).c_str( ), nums( out, 15).c_str( ));
      }
}

/* ---------------------------------------------------------------- PS-1996 */
struct PsBlock { double sec[12]; std::vector<double> terms; };
struct PsPlanet { double t0, dt; int16_t nf[3]; std::vector<double> fq; std::vector<PsBlock> b; size_t at, end_hdr; std::vector<size_t> block_end; };
struct Ps { PsPlanet p[9]; str bytes; FILE *f; };
static void make_ps( Ps &s, const str &name)
{
   str body;
   int32_t offs[9];
   int order[9];
   for( int i = 0; i < 9; i++) order[i] = i;
   for( int i = 8; i; i--) std::swap( order[i], order[rnd( 0, i)]);
   for( int z = 0; z < 9; z++)
      {
      PsPlanet &p = s.p[order[z]];
      const int n_blocks = one_in( 5) ? 30 : (int)rnd( 1, 6);
      int16_t hdr[5], sizes[30];
      str blocks;
      std::vector<size_t> ends;
      offs[order[z]] = (int32_t)( 36 + body.size( ));
      p.at = (size_t)offs[order[z]];
      p.t0 = 2400000.5 + (double)rnd( 0, 50000);
      p.dt = one_in( 2) ? (double)rnd( 100, 10000) : rndf( 100., 10000.);
      int total = 0;
      do { total = 0; for( int i = 0; i < 3; i++) total += (p.nf[i] = (int16_t)rnd( 0, one_in( 4) ? 12 : 4)); } while( !total);
      for( int i = 0; i < total; i++) p.fq.push_back( one_in( 10) ? 0. : rndf( 0., .3));
      for( int k = 0; k < n_blocks; k++)
         {
         PsBlock b;
         const size_t start = blocks.size( );
         for( double &x : b.sec) x = scaled( 3.e+10);
         put( blocks, b.sec, sizeof( b.sec));
         for( int i = 0; i < total; i++)
            {
            uint16_t flags = 0;
            str q;
            for( int j = 0; j < 6; j++)
               {
               const int kind = (int)rnd( 0, 3);
               double x;
               flags |= (uint16_t)( kind << (2 * j));
               if( kind == 0) { const int8_t v = (int8_t)rnd( -128, 127); x = v; put( q, &v, 1); }
               else if( kind == 1) { const int16_t v = (int16_t)( one_in( 20) ? -32768 : rnd( -32768, 32767)); x = v; put( q, &v, 2); }
               else if( kind == 2) { const int32_t v = one_in( 20) ? INT32_MIN : (int32_t)scaled( 2147483647.); x = v; put( q, &v, 4); }
               else { x = scaled( 1.e+10); put( q, &x, 8); }
               b.terms.push_back( x);
               }
            put( blocks, &flags, 2);
            blocks += q;
            }
         sizes[k] = (int16_t)( blocks.size( ) - start);
         ends.push_back( blocks.size( ));
         p.b.push_back( b);
         }
      put( body, &p.t0, 8); put( body, &p.dt, 8);
      for( int i = 0; i < 3; i++) hdr[i] = p.nf[i];
      hdr[3] = (int16_t)n_blocks; hdr[4] = (int16_t)total;
      put( body, hdr, 10);
      put( body, p.fq.data( ), p.fq.size( ) * 8);
      put( body, sizes, (size_t)n_blocks * 2);
      for( size_t e : ends) p.block_end.push_back( 36 + body.size( ) + e);
      body += blocks;
      }
   put( s.bytes, offs, 36);
   s.bytes += body;
   save( name, s.bytes, s.bytes.size( ));
   s.f = fopen( name.c_str( ), "rb");
   fgetc( s.f);
}
static str ps_head( const PsPlanet &p) { return( "{\"t0\":" + num( p.t0) + ",\"dt\":" + num( p.dt) + ",\"blocks\":" + std::to_string( p.b.size( )) + "}"); }
static void ask_ps( Ps &s, bool by_name)
{
   const int planet = (int)rnd( 1, 9);
   const PsPlanet &p = s.p[planet - 1];
   const double span = p.dt * (double)p.b.size( );
   const int where = (int)rnd( 0, 11);
   double ask = p.t0 + rndf( 0., span);
   bool cut = false;
   if( where == 0) ask = p.t0 - rndf( 0.001, 3000.);
   if( where == 1) ask = p.t0 + span + rndf( 0.001, 3000.);
   if( where == 2) ask = p.t0;
   int blockno = (int)floor( (ask - p.t0) / p.dt);
   const bool inside = blockno >= 0 && blockno < (int)p.b.size( );
   if( by_name) save( "ps_1996.dat", s.bytes, s.bytes.size( ));
   FILE *f = by_name ? NULL : s.f;
   if( inside && one_in( 5))
      {
      const size_t n = (size_t)rnd( one_in( 3) ? 0 : (long)p.at, (long)p.block_end[blockno] - 1);
      save( by_name ? "ps_1996.dat" : "pscut.bin", s.bytes, n);
      if( !by_name) { f = fopen( "pscut.bin", "rb"); fgetc( f); }
      cut = true;
      }
   inflight( "load_ps1996_series planet %d jd %.17g", planet, ask);
   was.now( );
   void *q = load_ps1996_series( f, ask, planet);
   double out[6] = { 9., 9., 9., 9., 9., 9. }, again[3] = { 9., 9., 9. };
   double jd = ask;
   int rc = 0;
   if( q && inside && !cut)
      {
      const double b0 = p.t0 + blockno * p.dt;
      if( one_in( 6)) jd = b0 + p.dt * rndf( -.1, 1.1);
      else if( one_in( 6)) jd = one_in( 2) ? b0 : b0 + p.dt;
      inflight( "get_ps1996_position planet %d jd %.17g", planet, jd);
      rc = get_ps1996_position( jd, q, out, one_in( 2) ? 1 : 7);
      get_ps1996_position( jd, q, again, 0);
      }
   const bool loaded = q != NULL;
   if( q) unload_ps1996_series( q);
   const str left = was.left( );
   if( cut && f) fclose( f);
   if( !inside || cut || !loaded)
      rec( "{\"op\":\"psout\",\"planet\":%d,\"head\":%s,\"ask\":%s,\"loaded\":%d,\"cut\":%d,%s}", planet, ps_head( p).c_str( ), num( ask).c_str( ), (int)loaded, (int)cut, left.c_str( ));
   else
      {
      std::vector<str> groups;
      const PsBlock &b = p.b[blockno];
      size_t k = 0;
      for( int m = 0; m < 3; m++)
         {
         std::vector<str> g;
         for( int i = 0; i < p.nf[m]; i++, k++) g.push_back( "[" + num( p.fq[k]) + "," + nums( &b.terms[k * 6], 6) + "]");
         groups.push_back( join( g));
         }
      rec( "{\"op\":\"ps\",\"planet\":%d,\"head\":%s,\"ask\":%s,\"loaded\":1,\"blockno\":%d,\"block\":{\"t0\":%s,\"dt\":%s,\"secular\":[%s,%s,%s],\"groups\":%s},\"jd\":%s,\"rc\":%d,\"pos\":%s,\"vel\":%s,\"again\":%s,%s}",
            planet, ps_head( p).c_str( ), num( ask).c_str( ), blockno, num( p.t0 + blockno * p.dt).c_str( ), num( p.dt).c_str( ), nums( b.sec, 4).c_str( ), nums( b.sec + 4, 4).c_str( ), nums( b.sec + 8, 4).c_str( ),
            join( groups).c_str( ), num( jd).c_str( ), rc, nums( out, 3).c_str( ), nums( out + 3, 3).c_str( ), nums( again, 3).c_str( ), left.c_str( ));
      }
}

/* ---------------------------------------------------------------- ELP 2000-82B */
static const double ELP_POLYS[5][2] = { { 3.81034, 8399.6847 }, { 1.45479, 70.9933 }, { 2.18244, -33.7812 }, { 1.75347, 628.3076 }, { 1.79660, .0056 } };
static void ask_elp( int n_big, bool by_name, bool cut)
{
   static const int sizes[12] = { 8, 13, 13, 19, 19, 19, 19, 12, 12, 12, 12, 12 };
   static const int mults[12] = { 4, 5, 5, 11, 11, 11, 11, 4, 4, 4, 4, 4 };
   int32_t offs[74];
   double polys[39];
   str body;
   std::vector<str> series( 36);
   int order[36];
   const double t = a_time( ) / 4.;
   double tol = 1e-9 + 4e-6 * fabs( t);
   size_t last_end = 0, last_start = 0;
   memset( offs, 0, sizeof( offs));
   for( int i = 0; i < 5; i++) for( int k = 0; k < 5; k++)
      polys[i * 5 + k] = k < 2 ? ELP_POLYS[i][k] * rndf( .9, 1.1) : scaled( k == 2 ? 1e-4 : 1e-8);
   for( int i = 0; i < 7; i++) { polys[25 + i] = rndf( 0., 6.3); polys[32 + i] = rndf( 1., 2700.); }
   for( int i = 0; i < 36; i++) order[i] = i;
   for( int i = 35; i; i--) std::swap( order[i], order[rnd( 0, i)]);
   for( int z = 0; z < 36; z++)
      {
      const int no = order[z], kind = no / 3;
      const int chunk = 10000 / sizes[kind];
      int n = one_in( 3) ? 0 : (int)rnd( 1, 4);
      if( z == 35 && n_big) n = chunk * (n_big % 3) + (one_in( 3) ? 0 : (int)rnd( 1, one_in( 2) ? 5 : chunk - 1));
      if( z == 35 && cut && !n) n = 1;
      std::vector<int32_t> amps;
      std::vector<str> terms;
      offs[no * 2] = (int32_t)( 608 + body.size( ));
      offs[no * 2 + 1] = n;
      if( n) last_start = 608 + body.size( );
      for( int k = 0; k < n; k++) amps.push_back( (int32_t)scaled( n > 20 ? 1.e+6 : one_in( 30) ? 2.e+9 : 1.e+7));
      std::sort( amps.begin( ), amps.end( ), []( int32_t a, int32_t b) { return( labs( a) > labs( b)); });
      for( int k = 0; k < n; k++)
         {
         const int32_t phase = kind ? (int32_t)rnd( -36000000, 36000000) : 0;
         std::vector<str> m;
         put( body, &amps[k], 4);
         if( kind) put( body, &phase, 4);
         for( int j = 0; j < mults[kind]; j++)
            {
            const int8_t v = (int8_t)( one_in( 3) ? 0 : one_in( 40) ? rnd( -128, 127) : rnd( -4, 4));
            put( body, &v, 1);
            m.push_back( std::to_string( v));
            }
         terms.push_back( "[" + std::to_string( amps[k]) + "," + std::to_string( phase) + "," + join( m) + "]");
         tol += fabs( (double)amps[k]) * 1e-5 * 2. * 3e-9 * (1. + fabs( t)) * (1. + t * t);
         }
      if( n) last_end = 608 + body.size( );
      series[no] = join( terms);
      }
   str all;
   put( all, offs, 296); put( all, polys, 312); all += body;
   size_t bytes = all.size( );
   if( cut) bytes = one_in( 3) ? (size_t)rnd( 0, 607) : (size_t)rnd( (long)last_start, (long)last_end - 1);
   const char *name = by_name ? "elp82.dat" : "elp.bin";
   save( name, all, bytes);
   FILE *f = by_name ? NULL : fopen( name, "rb");
   if( f) fgetc( f);
   const double limit = one_in( 2) || cut ? 0. : fabs( scaled( 1e-3));
   double out[4] = { 9., 9., 9., 9. };
   inflight( "compute_elp_xyz t %.17g limit %.17g", t, limit);
   was.now( );
   const int rc = compute_elp_xyz( f, t, limit, out);
   const str left = was.left( );
   if( f) fclose( f);
   if( cut) { rec( "{\"op\":\"cut\",\"bytes\":%d,\"rc\":%d,%s}", (int)bytes, rc, left.c_str( )); return; }
   std::vector<str> p5, p7;
   for( int i = 0; i < 5; i++) p5.push_back( nums( polys + i * 5, 5));
   for( int i = 0; i < 7; i++) p7.push_back( "[" + num( polys[25 + i]) + "," + num( polys[32 + i]) + "]");
   rec( "{\"op\":\"elp\",\"polys\":%s,\"planets\":%s,\"series\":%s,\"t\":%s,\"limit\":%s,\"tol\":%s,\"rc\":%d,\"out\":%s,%s}", join( p5).c_str( ), join( p7).c_str( ), join( series).c_str( ),
         num( t).c_str( ), num( limit).c_str( ), num( tol).c_str( ), rc, nums( out, 4).c_str( ), left.c_str( ));
}

int main( int argc, char **argv)
{
   const long n = argc > 1 ? atol( argv[1]) : 300;
   if( argc < 3 || (mkdir( argv[2], 0700), chdir( argv[2]))) return( 3);
   rng_seed( (uint64_t)env_seed( ) + 2100);
   rec_open( );
   std::vector<Big> bigs;
   for( int i = 0; i < 5; i++) bigs.push_back( make_big( "b" + std::to_string( i)));
   static Small smalls[3];
   for( Small &s : smalls) make_small( s);
   static Ps pss[3];
   for( int i = 0; i < 3; i++) make_ps( pss[i], "p" + std::to_string( i));
   for( long k = 0; k < n; k++)
      switch( rnd( 0, 9))
         {
         case 0: case 1: case 2: if( one_in( 5)) ask_cut( bigs[rnd( 0, 4)], one_in( 2)); else ask_big( bigs[rnd( 0, 4)], one_in( 4)); break;
         case 3: case 4: case 5: ask_small( smalls[rnd( 0, 2)]); break;
         case 6: case 7: ask_ps( pss[rnd( 0, 2)], one_in( 4)); break;
         default: ask_elp( one_in( 15) ? (int)rnd( 1, 9) : 0, one_in( 4), one_in( 6)); break;
         }
   rec_close( );
   return( 0);
}
