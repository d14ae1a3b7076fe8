/* ADES documents (PSV, XML, mixed, damaged) through the translator, line by line and as files. */
#include "rec.h"
#include "watdefs.h"
#include "mpc_func.h"
#include <ctype.h>
#include <algorithm>
void ades_artsat_desigs( void *ades_context, const bool ignore_artsat_desigs);
typedef std::string str;
typedef std::vector<str> strs;
typedef std::vector<std::pair<str, str> > obs_t;

static str fmt( const char *f, ...)
{
   char b[600];
   va_list ap;
   va_start( ap, f);
   vsnprintf( b, sizeof( b), f, ap);
   va_end( ap);
   return b;
}
template<class T> static T pick( std::initializer_list<T> l) { return *(l.begin( ) + rnd( 0, (long)l.size( ) - 1)); }
#define PICK(...) pick<const char *>( { __VA_ARGS__ })
static bool one_in( int n) { return rnd( 1, n) == 1; }
static str digits( int n) { str r; while( n-- > 0) r += (char)( '0' + rnd( 0, 9)); return r; }
static str alnums( int n)
{
   const char *c = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-";
   str r;
   while( n-- > 0) r += c[rnd( 0, 63)];
   return r;
}
/* a decimal with n places, never a tie when rounded to `at` places */
static str decimal( long ip, int n, int at)
{
   str r = std::to_string( ip);
   if( one_in( 4)) r = fmt( "%0*ld", ip < 100 ? 2 : 3, ip);
   if( n < 0) return r;
   str f = digits( n);
   if( one_in( 6)) f = str( n, '9');
   if( n == at + 1 && f[at] == '5') f[at] = '6';
   if( n > at + 1 && f[at] == '5') f[at + 1] = '7';
   if( n > at + 1 && f[at] == '4') f[at] = '3';
   return r + "." + f;
}
static str rms( void) { return one_in( 8) ? fmt( "%s.%s", digits( 1).c_str( ), digits( (int)rnd( 1, 22)).c_str( )) : fmt( "%s%s", PICK( "0.", "1.", ".", "12."), digits( (int)rnd( 1, 4)).c_str( )); }
static str obstime( void)
{
   int y = (int)( one_in( 8) ? rnd( 2095, 2199) : one_in( 6) ? rnd( 1700, 1999) : rnd( 2000, 2030));
   str t = fmt( "%04d-%02d-%02dT%02d:%02d", y, (int)rnd( 1, 12), (int)rnd( 1, 28), (int)rnd( 0, 23), (int)rnd( 0, 59));
   if( y > 2099 || !one_in( 12))
      {
      t += fmt( ":%02d", (int)rnd( 0, 59));
      if( !one_in( 5)) t += "." + digits( (int)rnd( 1, 9));
      }
   return t + (one_in( 10) ? "" : "Z");
}
static str desig( bool perm)
{
   if( perm)
      switch( rnd( 0, 5))
         {
         case 0: return std::to_string( rnd( 1, 99));
         case 1: return std::to_string( rnd( 100000, 900000));
         case 2: return fmt( "%ldP", rnd( 1, 450));
         case 3: return fmt( "%ld", rnd( 619990, 620010));
         case 4: return fmt( "%ldP-%c", rnd( 1, 450), (int)rnd( 'A', 'Z'));
         default: return std::to_string( rnd( 1, 20000));
         }
   switch( rnd( 0, 5))
      {
      case 0: return fmt( "%c/%ld %c%ld", *PICK( "C", "P", "A"), rnd( 1990, 2030), (int)rnd( 'A', 'H'), rnd( 1, 20));
      case 1: return fmt( "%ld %c%c%ld", rnd( 2000, 2030), (int)rnd( 'A', 'H'), (int)rnd( 'J', 'Z'), rnd( 600, 700));
      case 2: return fmt( "%ld P-L", rnd( 2000, 9999));
      case 3: return fmt( "%ld %c%c", rnd( 1925, 2030), (int)rnd( 'A', 'H'), (int)rnd( 'J', 'Z'));
      default: return fmt( "%ld %c%c%ld", rnd( 1925, 2030), (int)rnd( 'A', 'H'), (int)rnd( 'A', 'H'), rnd( 1, 400));
      }
}
static str value_of( const str &t)
{
   if( t == "permID") return desig( true);
   if( t == "provID") return desig( false);
   if( t == "trkSub") return alnums( (int)rnd( 1, 12));
   if( t == "artSat") return PICK( "2009-017C", "1998-067A", "SAT1", "ABCDEFGHIJKL");
   if( t == "obsID") return alnums( (int)rnd( 1, 25));
   if( t == "trkID") return alnums( (int)rnd( 1, 11));
   if( t == "stn") return PICK( "703", "C57", "Z99", "I41", "247", "270", "a01");
   if( t == "obsTime") return obstime( );
   if( t == "band") return PICK( "V", "R", "Pg", "Pw", "PS", "Sr", "SZ", "Ao", "Ac", "Ax", "Gb", "Gr", "G", "Gq", "PSr", "Uk", "L1", "P", "S", "A");
   if( t == "mode") return PICK( "CCD", "CMO", "VID", "PHO", "ENC", "PMT", "MIC", "MER", "TDI", "OCC", "UNK", "XXX", "CC");
   if( t == "deprecated") return "X";
   if( t == "disc") return PICK( "*", "*", "+");
   if( t == "ref") return pick<str>( { fmt( "MPEC 20%02ld-%c%ld", rnd( 0, 30), (int)rnd( 'A', 'Y'), rnd( 1, 300)), fmt( "MPS %ld", one_in( 3) ? rnd( 259990, 260100) : rnd( 1, 1500000)),
            fmt( "MPC %ld", one_in( 2) ? rnd( 99990, 110100) : rnd( 1, 200000)), "!Z", "!abcdefg", "Icarus 12" });
   if( t == "prog") return pick<str>( { fmt( "%02ld", rnd( 0, 40)), fmt( "%ld", rnd( 0, 9)) });
   if( t == "notes") return alnums( (int)rnd( 1, 6));
   if( t == "ra") return str( one_in( 9) ? "+" : "") + decimal( rnd( 0, 359), (int)rnd( -1, 12), 8);
   if( t == "dec") return str( PICK( "", "+", "-", "-")) + decimal( rnd( 0, 89), (int)rnd( -1, 12), 8);
   if( t == "mag") return pick<str>( { fmt( "%ld", rnd( 1, 29)), fmt( "%ld.%ld", rnd( 1, 29), rnd( 0, 9)), fmt( "%ld.%s", rnd( 1, 29), digits( (int)rnd( 2, 5)).c_str( )) });
   if( t == "astCat") return PICK( "Gaia2", "Gaia3E", "Gaia3", "Gaia1", "UCAC4", "UCAC5", "USNOB1", "Tyc2", "Tycho-2", "2MASS", "PPMXL", "ATLAS2", "SDSS-DR7", "SDSS7", "GSC 1.0", "GSC1.1", "Foo", "gaia-dr2", "Gaia DR1.0", "ACT", "AC", "SAO", "NOMAD");
   if( t == "rmsCorr") return PICK( "0.5", "-0.123", "0.0", "0.00", "-0.01", ".9", "0");
   if( t.compare( 0, 3, "rms") == 0) return rms( );
   if( t == "ctr") return PICK( "399", "10", "299", "499", "2000433", "0");
   return PICK( "1.2", "foo bar", "x", "3", "a<b" + 2);
}
static obs_t make_obs( void)
{
   static const char *opt[] = { "permID", "provID", "trkSub", "artSat", "obsID", "trkID", "band", "disc", "ref", "prog", "notes", "mag", "astCat",
         "rmsCorr", "rmsMag", "rmsTime", "remarks", "exp", "seeing", "trkMPC", "photCat", "nStars", "logSNR", "subFmt", NULL };
   obs_t o;
   std::vector<str> t;
   int dens = (int)rnd( 2, 6);
   if( !one_in( 10)) t.push_back( "stn");
   if( !one_in( 10)) t.push_back( "obsTime");
   if( !one_in( 10)) t.push_back( "ra"), t.push_back( "dec");
   for( int i = 0; opt[i]; i++)
      if( one_in( dens)) t.push_back( opt[i]);
   if( one_in( 2)) { t.push_back( "rmsRA"); if( !one_in( 6)) t.push_back( "rmsDec"); }
   else if( one_in( 5)) t.push_back( "rmsDec");
   for( size_t i = t.size( ); i > 1; i--)
      std::swap( t[i - 1], t[rnd( 0, (long)i - 1)]);
   if( !one_in( 4)) o.push_back( { "mode", value_of( "mode") });
   if( one_in( 12)) o.push_back( { "deprecated", "X" });
   for( auto &x : t) o.push_back( { x, value_of( x) });
   str rr;
   for( auto &x : o) if( x.first == "rmsRA") rr = x.second;
   if( rr.size( ) && one_in( 4)) for( auto &x : o) if( x.first == "rmsDec") x.second = rr;
   if( one_in( 4))
      {
      str sys = PICK( "ICRF_KM", "ICRF_AU", "WGS84");
      o.push_back( { "sys", sys });
      if( one_in( 2)) o.push_back( { "ctr", value_of( "ctr") });
      std::vector<int> k = { 1, 2, 3 };
      for( int i = 2; i > 0; i--) std::swap( k[i], k[rnd( 0, i)]);
      for( int j : k)
         {
         str v;
         if( sys == "ICRF_KM") v = str( PICK( "", "+", "-")) + fmt( "%ld", one_in( 3) ? rnd( 0, 99) : one_in( 2) ? rnd( 100, 99999) : rnd( 100000, 9999999)) + "." + digits( (int)rnd( 0, 9));
         else if( sys == "ICRF_AU") v = str( PICK( "", "+", "-")) + fmt( "%ld", one_in( 2) ? rnd( 0, 9) : rnd( 10, 99)) + "." + digits( (int)rnd( 1, 10));
         else if( j == 3) v = std::to_string( rnd( 0, 8000));
         else if( j == 1) v = fmt( "%ld.", rnd( 0, 359)) + digits( (int)rnd( 1, 6));
         else v = str( PICK( "", "+", "-")) + fmt( "%ld.", rnd( 0, 89)) + digits( (int)rnd( 1, 6));
         o.push_back( { fmt( "pos%d", j), v });
         if( sys == "ICRF_KM" && one_in( 3))
            o.push_back( { fmt( "vel%d", j), str( PICK( "", "-", "+")) + std::to_string( rnd( 0, 40)) + "." + digits( (int)rnd( 1, 6)) + "3" });
         }
      }
   return o;
}
static void psv_section( strs &L)
{
   std::vector<obs_t> obs;
   std::vector<str> cols;
   int n = (int)rnd( 1, 5);
   /* columns: the fields of the first observation (some padded in), later rows leave out or replace values */
   obs_t o = make_obs( );
   while( o.size( ) < 4) o = make_obs( );
   str h;
   for( auto &x : o) { if( h.size( )) h += "|"; h += (one_in( 4) ? " " : "") + x.first + str( rnd( 0, 3), ' '); }
   L.push_back( h);
   str sys;
   for( auto &x : o) if( x.first == "sys") sys = x.second;
   for( int r = 0; r < n; r++)
      {
      str l;
      bool drop_space = sys.size( ) && one_in( 4);
      for( size_t i = 0; i < o.size( ); i++)
         {
         str v = o[i].second;
         const str &t = o[i].first;
         bool space = t == "sys" || t == "ctr" || t.compare( 0, 3, "pos") == 0 && t.size( ) == 4 || t.compare( 0, 3, "vel") == 0;
         if( r && !space) v = one_in( 4) ? "" : value_of( t);
         if( space && r && t.compare( 0, 3, "vel") == 0 && one_in( 3)) v = "";
         if( space && r && t == "ctr" && one_in( 2)) v = "";
         if( space && drop_space) v = "";
         if( i) l += "|";
         l += str( one_in( 4) ? 1 : 0, ' ') + v + str( rnd( 0, 2), ' ');
         }
      L.push_back( l);
      }
}
static str person( void)
{
   str s;
   int n = one_in( 4) ? (int)rnd( 1, 14) : (int)rnd( 1, 4);
   while( n--)
      {
      str w;
      for( int k = (int)rnd( 1, 9); k; k--) w += (char)(one_in( 12) ? *PICK( "-", "'", "(", ")", "7", "&", ";", "/", "%") : rnd( 'a', 'z'));
      if( !one_in( 3)) w[0] = (char)rnd( 'A', 'Z');
      s += (s.size( ) ? PICK( " ", " ", ". ", ", ", "  ") : "") + w;
      }
   return s;
}
static void psv_header( strs &L)
{
   if( one_in( 2)) L.push_back( "# version=2017");
   int n = (int)rnd( 0, 4);
   while( n--)
      {
      str c = PICK( "observatory", "submitter", "observers", "measurers", "telescope", "comment", "obsContext", "mpcCode");
      L.push_back( "# " + c);
      if( c == "observatory") L.push_back( "! mpcCode " + str( PICK( "703", "C57")));
      if( c == "telescope") L.push_back( PICK( "! aperture 1.5", "! design Reflector", "! foo 22"));
      else if( c == "comment") L.push_back( "! line " + person( ));
      else L.push_back( str( "! ") + PICK( "name", "name", "institution") + " " + person( ));
      }
}
static str mpc80( void)
{
   return fmt( "     K%02ld%c%02ld%c  C20%02ld %02ld %02ld.%s %02ld %02ld %02ld.%s%c%02ld %02ld %02ld.%ld         %s%c      703", rnd( 0, 30), (int)rnd( 'A', 'H'), rnd( 0, 99), (int)rnd( 'A', 'H'),
        rnd( 0, 30), rnd( 1, 12), rnd( 1, 28), (digits( 5) + " ").c_str( ), rnd( 0, 23), rnd( 0, 59), rnd( 0, 59), digits( 2).c_str( ), *PICK( "+", "-"), rnd( 0, 89), rnd( 0, 59), rnd( 0, 59), rnd( 0, 9), "18.2 ", 'V');
}
static str tholen( void)
{
   str l = mpc80( );
   if( one_in( 2)) l.replace( 0, 12, (desig( one_in( 3)) + str( 12, ' ')).substr( 0, 12));
   str s = digits( 1) + "." + digits( 3), t = one_in( 3) ? s : digits( 1) + "." + digits( 3);
   if( l.size( ) != 80) l = (l + str( 80, ' ')).substr( 0, 77) + "568";
   l += " " + s + " " + t;
   if( one_in( 6)) l[(size_t)rnd( 76, (long)l.size( ) - 1)] = *PICK( " ", "x", ".");
   if( one_in( 10)) l += "z";
   return l;
}
static void xml_obs( strs &L, bool one_line, const str &ind)
{
   obs_t o = make_obs( );
   str l = ind + "<optical>";
   if( !one_line) { L.push_back( l); l = ""; }
   for( auto &x : o)
      {
      str e = "<" + x.first + ">" + str( one_in( 8) ? 1 : 0, ' ') + x.second + str( one_in( 8) ? 1 : 0, ' ') + "</" + x.first + ">";
      if( one_in( 40)) e += "<foo>bar</foo>";
      if( one_line) l += str( rnd( 0, 1), ' ') + e; else L.push_back( ind + "  " + e);
      }
   if( one_line) L.push_back( l + " </optical>"); else L.push_back( ind + "</optical>");
}
static void xml_doc( strs &L)
{
   if( one_in( 2)) L.push_back( "<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
   L.push_back( "<ades version=\"2017\">");
   int blocks = (int)rnd( 1, 2);
   while( blocks--)
      {
      L.push_back( "  <obsBlock>");
      if( !one_in( 3))
         {
         L.push_back( "    <obsContext>");
         int n = (int)rnd( 0, 4);
         while( n--)
            {
            str c = PICK( "observatory", "submitter", "observers", "measurers", "telescope", "comment");
            L.push_back( "      <" + c + ">");
            if( c == "observatory") L.push_back( "        <mpcCode>" + str( PICK( "703", "C57")) + "</mpcCode>");
            if( c == "telescope") L.push_back( "        <aperture> 1.5 </aperture>");
            else if( c == "comment") L.push_back( "        <line>" + person( ) + "</line>");
            else L.push_back( one_in( 3) ? "        <institution>" + person( ) + "</institution>" : "        <name>" + person( ) + (one_in( 3) ? " " : "") + "</name>");
            L.push_back( "      </" + c + ">");
            }
         L.push_back( "    </obsContext>");
         }
      L.push_back( "    <obsData>");
      int n = (int)rnd( 1, 4);
      while( n--) xml_obs( L, one_in( 2), "      ");
      L.push_back( "    </obsData>");
      L.push_back( "  </obsBlock>");
      }
   L.push_back( "</ades>");
}
static void bad_doc( strs &L)
{
   static const char *t[] = { "<ades version=\"2017\">", "<optical>", "</optical>", "<ra>12.5</ra>", "<dec>-3.25</dec>", "<stn>703</stn>", "<trkSub>abc</trkSub>",
      "<remarks>", "</remarks>", "</ades>", "</obsData>", "<obsData>", "<obsData><optical>", "<optical><remarks>a</localUse></optical>", "<foo", "<!-- a -->", "<bar>", "12.5", "<rmsRA>0.5</rmsRA>",
      "<rmsDec>0.25</rmsDec></optical>", "</obsBlock></obsBlock>", "<optical><stn>C57</stn></optical>", "<provID>2020 AB1</provID>", "<adesx>", "<mag>18.5</mag>" };
   if( one_in( 4))
      {
      str l;
      int n = (int)rnd( 15, 26), m = (int)rnd( 0, 30);
      L.push_back( "<ades version=\"2017\">");
      for( int i = 0; i < n; i++) if( one_in( 3)) L.push_back( "<obsData>"); else { l += "<obsBlock>"; if( one_in( 4)) { L.push_back( l); l = ""; } }
      if( l.size( )) L.push_back( l);
      for( int i = 0; i < m; i++) L.push_back( PICK( "</obsBlock>", "</obsData>"));
      L.push_back( "<optical><stn>C57</stn></optical>");
      return;
      }
   int n = (int)rnd( 3, 20);
   if( one_in( 2)) L.push_back( t[0]);
   while( n--)
      {
      str l;
      int k = (int)rnd( 1, 3);
      while( k--) l += t[rnd( 0, 24)];
      size_t p = l.find( "</optical>");         /* nothing behind a completed observation */
      if( p != str::npos) l = l.substr( 0, p + 10);
      L.push_back( l);
      }
}
static str trimmed( const char *b) { str s = b; while( s.size( ) && (s.back( ) == '\n' || s.back( ) == '\r')) s.pop_back( ); return s; }
static void run( const strs &L)
{
   str all;
   for( auto &l : L) all += l + "\n";
   inflight( "%s", all.c_str( ));
   const int ign = one_in( 5);
   rec( "{\"op\":\"start\",\"ign\":%d}", ign);
   void *c = init_ades2mpc( );
   if( ign) ades_artsat_desigs( c, true);
   char *b = (char *)malloc( 3000);
   for( auto &l : L)
      {
      str out, line = l;
      while( line.size( ) && line.back( ) == ' ') line.pop_back( );
      int rc, n = 0;
      strcpy( b, line.c_str( ));
      while( (rc = xlate_ades2mpc_in_place( c, b)) > 0 && n < 30)
         out += (n++ ? "," : "") + codes( trimmed( b));
      rec( "{\"op\":\"line\",\"in\":%s,\"rc\":%d,\"out\":[%s]}", codes( line).c_str( ), rc, out.c_str( ));
      }
   rec( "{\"op\":\"end\",\"depth\":%d}", free_ades2mpc_context( c));
   c = init_ades2mpc( );
   if( ign) ades_artsat_desigs( c, true);
   FILE *f = fmemopen( (void *)all.data( ), all.size( ), "rb");
   str out;
   int rc, n = 0;
   while( (rc = fgets_with_ades_xlation( b, 3000, c, f)) != 0 && n < 5000)
      {
      out += n++ ? "," : "";
      if( rc < 0) out += fmt( "[%d]", rc); else out += codes( trimmed( b));
      }
   fclose( f);
   free( b);
   free_ades2mpc_context( c);
   rec( "{\"op\":\"file\",\"out\":[%s]}", out.c_str( ));
}
int main( int argc, char **argv)
{
   int n = atoi( argv[1]);
   str what = argv[2];
   rec_open( );
   rng_seed( env_seed( ) * 7 + (what == "bad" ? 3 : 0));
   for( int i = 0; i < n; i++)
      {
      strs L;
      if( what == "bad") bad_doc( L);
      else
         {
         int k = (int)rnd( 1, 3);
         while( k--)
            switch( rnd( 0, 5))
               {
               case 0: psv_header( L); psv_section( L); break;
               case 1: psv_section( L); if( one_in( 2)) psv_section( L); break;
               case 2: case 3: xml_doc( L); break;
               case 4: L.push_back( mpc80( )); L.push_back( tholen( )); if( one_in( 2)) L.push_back( PICK( "COM a comment", "# foo bar", "| x", "COD 703", "a|b|c")); break;
               case 5: L.push_back( tholen( )); psv_header( L); psv_section( L); L.push_back( mpc80( )); break;
               }
         if( one_in( 10)) { L.clear( ); xml_obs( L, one_in( 2), ""); xml_obs( L, one_in( 2), ""); }
         }
      run( L);
      }
   rec_close( );
   return 0;
}
