/* Records packing and unpacking of designations. */
#include "watdefs.h"
#include <stdio.h>
#include "mpc_func.h"
#include "rec.h"
#include <set>

static std::set<std::string> seen_p, seen_u, seen_a;
static bool want_p = true, want_u = true;

/* exact-size heap copies, so that the sanitizer sees any read past the text */
struct Exact { char *p; Exact( const std::string &s) { p = (char *)malloc( s.size( ) + 1); memcpy( p, s.c_str( ), s.size( ) + 1); } ~Exact( ) { free( p); } };

static std::string do_pack( const std::string &t)
{
   char out[13 + 16];
   memset( out, '#', sizeof( out));
   Exact e( t);
   inflight( "{\"op\":\"pack\",\"in\":%s}", codes( t).c_str( ));
   const int rc = create_mpc_packed_desig( out, e.p);
   size_t n = 0;
   while( n < 28 && out[n]) n++;
   if( want_p && seen_p.insert( t).second)
      rec( "{\"op\":\"pack\",\"in\":%s,\"rc\":%d,\"out\":%s}", codes( t).c_str( ), rc, codes( out, n).c_str( ));
   return( std::string( out, n));
}
static std::string do_unpack( const std::string &t, const std::string &tail)
{
   if( !want_u) return( "");
   char *out = (char *)malloc( 40);
   memset( out, '#', 40); out[39] = 0;
   Exact e( t + tail);
   inflight( "{\"op\":\"unpack\",\"in\":%s}", codes( t + tail).c_str( ));
   const int rcn = unpack_mpc_desig( NULL, e.p);
   const int rc = unpack_mpc_desig( out, e.p);
   std::string r = out;
   if( seen_u.insert( t + tail).second)
      rec( "{\"op\":\"unpack\",\"in\":%s,\"rc\":%d,\"rcn\":%d,\"out\":%s}", codes( t + tail).c_str( ), rc, rcn, codes( out).c_str( ));
   free( out);
   return( r);
}
static void do_unal( const std::string &t)
{
   if( !want_u) return;
   char *out = (char *)malloc( 40);
   memset( out, '#', 40); out[39] = 0;
   Exact e( t);
   inflight( "{\"op\":\"unal\",\"in\":%s}", codes( t).c_str( ));
   const int rc = unpack_unaligned_mpc_desig( out, e.p);
   if( seen_a.insert( t).second)
      rec( "{\"op\":\"unal\",\"in\":%s,\"rc\":%d,\"out\":%s}", codes( t).c_str( ), rc, codes( out).c_str( ));
   free( out);
}
static std::string fmt( const char *f, ...)
{
   char b[200];
   va_list ap; va_start( ap, f); vsnprintf( b, sizeof( b), f, ap); va_end( ap);
   return( b);
}
static std::string tail68( void)
{
   std::string r;
   const char *al = " 0123456789.CKAB";
   for( int i = 0; i < 68; i++) r += al[rnd( 0, 15)];
   return( r);
}
/* pack; unpack the result; unpack it inside a full record; unpack it unaligned */
static void all( const std::string &t)
{
   const std::string p = do_pack( t);
   if( p.size( ) == 12)
      {
      do_unpack( p, "");
      if( rnd( 0, 7) == 0) do_unpack( p, tail68( ));
      if( rnd( 0, 7) == 0) { size_t k = p.find_first_not_of( ' '); do_unal( k == std::string::npos ? "" : p.substr( k)); }
      }
}
static const char L25[] = "ABCDEFGHJKLMNOPQRSTUVWXYZ";
static const char H24[] = "ABCDEFGHJKLMNOPQRSTUVWXY";
static const char *planets[8] = { "Venus", "Earth", "Mars", "Jupiter", "Saturn", "Uranus", "Neptune", "Pluto"};
static std::string roman( int n)
{
   static const int v[] = { 900, 500, 400, 100, 90, 50, 40, 10, 9, 5, 4, 1};
   static const char *s[] = { "CM", "D", "CD", "C", "XC", "L", "XL", "X", "IX", "V", "IV", "I"};
   std::string r;
   for( int i = 0; i < 12; i++) while( n >= v[i]) { r += s[i]; n -= v[i]; }
   return( r);
}
static long some_cycle( void)
{
   static const long c[] = { 0, 1, 2, 9, 10, 11, 99, 100, 101, 359, 360, 361, 609, 610, 618, 619};
   return( rnd( 0, 1) ? c[rnd( 0, 15)] : rnd( 0, 619));
}
static long some_xcycle( void)
{
   static const long c[] = { 620, 621, 622, 999, 1000, 3099, 3100, 9999, 10000, 99999, 100000, 591672, 591673, 591674, 600000, 999999};
   return( rnd( 0, 1) ? c[rnd( 0, 15)] : rnd( 620, rnd( 0, 1) ? 591673 : 20000));
}
static long some_number( void)
{
   static const long p[] = { 1, 10, 100, 1000, 10000, 100000, 360000, 620000, 620000 + 62, 620000 + 3844, 620000 + 238328, 1000000, 15396336};
   long n;
   switch( rnd( 0, 3))
      {
      case 0: n = p[rnd( 0, 12)] + rnd( -2, 2); break;
      case 1: n = rnd( 1, 619999); break;
      case 2: n = 620000 + 62 * rnd( 0, 238327) + rnd( -1, 61); break;
      default: n = rnd( 1, 15396400);
      }
   return( n < 0 ? 0 : n);
}
static std::string valid( int kind)
{
   const char h = H24[rnd( 0, 23)], l = L25[rnd( 0, 24)];
   const int y = (int)( rnd( 0, 1) ? rnd( 1600, 2099) : rnd( 1990, 2062));
   switch( kind)
      {
      case 0: return( fmt( "(%ld)", some_number( )));
      case 1: { const long c = some_cycle( ); return( c ? fmt( "%d %c%c%ld", y, h, l, c) : fmt( "%d %c%c", y, h, l)); }
      case 2: return( fmt( "%d %c%c%ld", (int)rnd( 1998, 2063), h, l, some_xcycle( )));
      case 3: return( fmt( "%c/%d %c%ld", "PCXDA"[rnd( 0, 4)], y, h, some_cycle( )));
      case 4: return( fmt( "%c/%d %c%ld-%c", "PCXDA"[rnd( 0, 4)], y, h, some_cycle( ), (int)rnd( 'A', 'Z')));
      case 5: return( fmt( "%c/%d %c%c%ld", "PCXDA"[rnd( 0, 4)], y, h, l, rnd( 0, 3) ? some_cycle( ) : some_xcycle( )));
      case 6: return( fmt( "%ld%c", rnd( 1, rnd( 0, 1) ? 9999 : 500), "PDI"[rnd( 0, 2)]));
      case 7: return( fmt( "%ld%c-%c", rnd( 1, 9999), "PDI"[rnd( 0, 2)], (int)rnd( 'A', 'Z')));
      case 8: return( fmt( "%ld%c-%c%c", rnd( 1, 9999), "PDI"[rnd( 0, 2)], (int)rnd( 'A', 'Z'), (int)rnd( 'A', 'Z')));
      case 9: return( std::string( planets[rnd( 0, 7)]) + " " + roman( (int)rnd( 1, 999)));
      case 10: return( fmt( "%s %ld", planets[rnd( 0, 7)], rnd( 0, 1001)));
      case 11: return( fmt( "S/%d %c %ld", (int)rnd( 1899, 2101), "MVEJSUNP"[rnd( 0, 7)], rnd( 0, 621)));
      case 12: { static const char *s[4] = { "P-L", "T-1", "T-2", "T-3"}; return( fmt( "%ld %s", rnd( 999, 10000), s[rnd( 0, 3)])); }
      case 13: { std::string r = fmt( "%d-%03ld%c", (int)rnd( 1955, 2101), rnd( 0, 999), (int)rnd( 'A', 'Z')); for( long k = rnd( 0, 3); k; k--) r += (char)rnd( 'A', 'Z'); return( r); }
      case 14: return( fmt( "%ld", some_number( )));
      case 15: return( fmt( "%c/%ld", "PCXDA"[rnd( 0, 4)], rnd( 0, 10001)));
      case 16: return( fmt( "%c/%ld-%c%c", "PCXDA"[rnd( 0, 4)], rnd( 1, 9999), (int)rnd( 'A', 'Z'), rnd( 0, 1) ? (int)rnd( 'A', 'Z') : 0));
      case 17: return( fmt( "%d%c%c%ld", y, h, l, some_cycle( )));
      default: { std::string r; for( long k = rnd( 1, 13); k; k--) r += "ABCXZabcz0123456789 -_()/."[rnd( 0, 25)]; return( r); }
      }
}
static bool long_digits( const std::string &s)
{
   int n = 0;
   for( size_t i = 0; i < s.size( ); i++) { n = isdigit( (unsigned char)s[i]) ? n + 1 : 0; if( n > 8) return( true); }
   return( false);
}
static std::string mutate( std::string s, const char *al)
{
   for( long k = rnd( 1, 2); k; k--)
      {
      const size_t at = s.empty( ) ? 0 : (size_t)rnd( 0, (long)s.size( ) - 1);
      const char c = al[rnd( 0, (long)strlen( al) - 1)];
      switch( rnd( 0, 3))
         {
         case 0: if( !s.empty( )) s[at] = c; break;
         case 1: s.insert( at, 1, c); break;
         case 2: if( !s.empty( )) s.erase( at, 1); break;
         default: if( s.size( ) > 1) { const size_t b = (size_t)rnd( 0, (long)s.size( ) - 1); std::swap( s[at], s[b]); }
         }
      }
   return( s);
}

int main( int argc, char **argv)
{
   const long n = argc > 1 ? atol( argv[1]) : 20000;
   rec_open( );
   rng_seed( env_seed( ) * 7919 + 3);
   if( argc > 2 && !strcmp( argv[2], "pack")) want_u = false;
   if( argc > 2 && !strcmp( argv[2], "unpack")) want_p = false;
   if( argc > 2 && !strcmp( argv[2], "mh"))
      {
      for( int c = -128; c < 128; c++)
         rec( "{\"op\":\"mhc\",\"c\":%d,\"v\":%d}", c, mutant_hex_char_to_int( (char)c));
      for( int v = -70; v < 300; v++)
         rec( "{\"op\":\"mhi\",\"v\":%d,\"c\":%d}", v, (unsigned char)int_to_mutant_hex_char( v));
      for( long k = 0; k < n; k++)
         {
         const int nd = (int)rnd( 1, 5);
         long p = 1; for( int j = 0; j < nd; j++) p *= 62;
         long v = rnd( 0, 4) ? rnd( 0, p - 1) : rnd( 0, p * 3 < 2000000000L ? p * 3 : 2000000000L);
         if( k < 62 * 62 + 50) v = k;
         if( rnd( 0, 9) == 0) { long q = 1; for( long j = rnd( 0, nd); j; j--) q *= 62; v = q + rnd( -1, 1); if( v < 0) v = 0; }
         if( nd == 5 && v > 2000000000L) v = 2000000000L;
         char b[12]; memset( b, '#', sizeof( b));
         const int hi = encode_value_in_mutant_hex( b, (size_t)nd, (int)v);
         b[nd] = 0;
         rec( "{\"op\":\"mhn\",\"n\":%d,\"v\":%ld,\"hi\":%d,\"s\":%s,\"back\":%d}", nd, v, hi, codes( b, (size_t)nd).c_str( ), get_mutant_hex_value( b, (size_t)nd));
         for( int j = 0; j < nd; j++) b[j] = "0123456789ABCJZabcjz/:@[`{ "[rnd( 0, rnd( 0, 3) ? 19 : 26)];
         rec( "{\"op\":\"mhr\",\"s\":%s,\"v\":%d}", codes( b, (size_t)nd).c_str( ), get_mutant_hex_value( b, (size_t)nd));
         }
      rec_close( );
      return( 0);
      }
   /* systematic: every satellite number, every cycle of one half month, every second letter */
   for( int p = 0; p < 8; p++)
      for( int k = 1; k < 1000; k += (p == 3 || p == 6 || n > 50000) ? 1 : 7)
         { all( std::string( planets[p]) + " " + roman( k)); }
   for( int k = 0; k <= 621; k++)
      {
      all( k ? fmt( "2003 QB%d", k) : "2003 QB");
      all( fmt( "C/1987 P%d", k));
      all( fmt( "S/2009 S %d", k));
      }
   for( int y = 1590; y <= 2110; y++)
      { all( fmt( "%d FF%d", y, y % 600)); all( fmt( "C/%d Y1", y)); all( fmt( "S/%d J 1", y)); all( fmt( "%d AB700", y)); }
   for( int h = 'A'; h <= 'Z'; h++)
      for( int l = 'A'; l <= 'Z'; l++)
         { all( fmt( "1995 %c%c", h, l)); all( fmt( "2026 %c%c%d", h, l, 620 + h * l)); }
   for( long k = 1; k <= 10001; k += n > 50000 ? 1 : 13) { all( fmt( "%ldP", k)); all( fmt( "%ld T-2", k)); all( fmt( "%ld P-L", k)); }
   const char *odd[] = { "", " ", "(", ")", "()", "(0)", "(433", "(433))", "( 433)", "  (433)", "(433) ", "00433", "0433", "433", "000000433", "(000000433)",
      "C/", "C/2018", "C/2018 F", "C/2018 F4-", "C/2018 F4-a", "C/2018 F4-AB", "P/1999 QA12-B", "C/2026 AA620-A", "C/2026 A700", "297P-", "297P-a", "297P-ABC",
      "297P-A ", "297P ", "1999 AI5", "1999 IA5", "1999 AI700", "2026 AI700", "6199 AB", "6200 AB", "8999 AB1", "9000 AB1", "9999 P-L ", "(15396335)", "(15396336)",
      "(4294967729)", "(99999999999999)", "4294967729", "1999 AB1234567", "2026 AB4294967916", "Jupiter", "Jupiter ", "Jupiter 0", "Jupiter -5", "Jupiter  12", "Jupiter XIIX",
      "Jupiter MI", "Mars II", "Mars II ", "Moon I", "S/2003 J 2", "S/2003  J 2", "S/2003 Q 2", "S/2003 J", "S/2003 J ", "1992-044A", "1992-044", "1992-44A", "1956-044A", "2100-044A",
      "1963-731KHG", "1963-731KHGA", "WT1190F", "ZTF0Ep4", "ABCDEFGH", "ABCDEFGHIJK", "ABCDEFGHIJKL", "K04J42X", "PLS2040", "A/2017 U1", "I/2017 U1", "1I", "1I-A", "2I/Borisov"};
   for( size_t k = 0; k < sizeof( odd) / sizeof( odd[0]); k++)
      { all( odd[k]); do_unal( odd[k]); do_unal( std::string( "   ") + odd[k] + "  x"); }
   for( long k = 0; k < n; k++)
      {
      std::string t = valid( (int)( k % 19));
      all( t);
      if( rnd( 0, 9) == 0) { all( " " + t + "  "); do_unal( t); }
      if( rnd( 0, 1))
         {
         t = mutate( t, "0123456789 ABIPCDXSZaz-/()._$~");
         if( !long_digits( t)) { all( t); if( rnd( 0, 3) == 0) do_unal( t); }
         }
      /* packed forms, mutated */
      char out[32];
      memset( out, 0, sizeof( out));
      create_mpc_packed_desig( out, valid( (int)rnd( 0, 18)).c_str( ));
      std::string p = out;
      if( rnd( 0, 3) == 0)          /* a number and a provisional designation together */
         {
         char o2[32];
         create_mpc_packed_desig( o2, valid( (int)rnd( 1, 5)).c_str( ));
         p = p.substr( 0, 5) + std::string( o2 + 5, 7);
         }
      else
         for( long q = rnd( 1, 2); q; q--)
            p[rnd( 0, 11)] = "0123456789 ABGIKPCDXSZaz-/_$~!"[rnd( 0, 29)];
      if( !long_digits( p))
         {
         do_unpack( p, "");
         if( rnd( 0, 9) == 0) do_unpack( p, tail68( ));
         if( rnd( 0, 5) == 0) do_unal( p);
         }
      }
   rec_close( );
   return( 0);
}
