/* Times as text: full_ctime, split_time, get_time_from_string.   timetext show|read N */
#include <math.h>
#include <time.h>
#include <ctype.h>
#include "watdefs.h"
#include "date.h"
#include "afuncs.h"
#include "rec.h"

extern "C" long double DLL_FUNC find_nearest_lunar_phase_time( const int phase_idx, const long double t2k);

static time_t fake_now = 1750000000;
extern "C" time_t __wrap_time( time_t *t) { if( t) *t = fake_now; return( fake_now); }

typedef std::string str;
static str fmtf( const char *f, ...) { char b[4000]; va_list ap; va_start( ap, f); vsnprintf( b, sizeof( b), f, ap); va_end( ap); return( b); }
static const char *tf( bool b) { return( b ? "true" : "false"); }

struct T { long d, s, us; };
static long double t2k_of( const T &t) { return( (long double)( t.d - 2451545) - .5L + ((long double)t.s + (long double)t.us / 1e+6L) / 86400.L); }
static T of_t2k( long double v)
{
   T r = { 0, 0, 0};
   v += .5L;
   if( !(v > -1e+9L && v < 1e+9L)) { r.d = -2000000000; return( r); }
   r.d = (long)floorl( v);
   long long u = llrintl( (v - (long double)r.d) * 86400e+6L);
   if( u >= 86400000000LL) { r.d++; u -= 86400000000LL; }
   r.d += 2451545;
   r.s = (long)( u / 1000000);
   r.us = (long)( u % 1000000);
   return( r);
}
static str js( const T &t) { return( fmtf( "[%ld,%ld,%ld]", t.d, t.s, t.us)); }

struct F { int cal, p, fmt; const char *unit; bool yf, md, dig, tonly, lz, two, noy, dwf, dwl, nosp, rnd, nocol, doy; };
static int flags( const F &f)
{
   return( f.fmt | f.cal | FULL_CTIME_N_PLACES( f.p) | (f.yf ? FULL_CTIME_YEAR_FIRST : 0) | (f.md ? FULL_CTIME_MONTH_DAY : 0)
      | (f.dig ? FULL_CTIME_MONTHS_AS_DIGITS : 0) | (f.tonly ? FULL_CTIME_TIME_ONLY : 0) | (f.lz ? FULL_CTIME_LEADING_ZEROES : 0)
      | (f.two ? FULL_CTIME_TWO_DIGIT_YEAR : 0) | (f.noy ? FULL_CTIME_NO_YEAR : 0) | (f.dwf ? FULL_CTIME_DAY_OF_WEEK_FIRST : 0)
      | (f.dwl ? FULL_CTIME_DAY_OF_WEEK_LAST : 0) | (f.nosp ? FULL_CTIME_NO_SPACES : 0) | (f.rnd ? FULL_CTIME_ROUNDING : 0)
      | (f.nocol ? FULL_CTIME_NO_COLONS : 0) | (f.doy ? FULL_CTIME_DAY_OF_YEAR : 0));
}
static str js( const F &f)
{
   return( fmtf( "{\"cal\":%d,\"p\":%d,\"unit\":\"%s\",\"yf\":%s,\"md\":%s,\"dig\":%s,\"tonly\":%s,\"lz\":%s,\"two\":%s,\"noy\":%s,"
      "\"dwf\":%s,\"dwl\":%s,\"nosp\":%s,\"rnd\":%s,\"nocol\":%s,\"doy\":%s}", f.cal, f.p, f.unit, tf( f.yf), tf( f.md), tf( f.dig),
      tf( f.tonly), tf( f.lz), tf( f.two), tf( f.noy), tf( f.dwf), tf( f.dwl), tf( f.nosp), tf( f.rnd), tf( f.nocol), tf( f.doy)));
}
static bool one_in( int n) { return( rnd( 1, n) == 1); }
static const char *units[7] = { "S", "M", "H", "D", "Y", "JD", "MJD" };
static const int cals[9] = { CALENDAR_GREGORIAN, CALENDAR_JULIAN, CALENDAR_HEBREW, CALENDAR_ISLAMIC, CALENDAR_REVOLUTIONARY,
               CALENDAR_PERSIAN, CALENDAR_JULIAN_GREGORIAN, CALENDAR_CHINESE, CALENDAR_MODERN_PERSIAN };
static int pick_cal( void) { return( one_in( 2) ? (one_in( 2) ? 0 : 6) : cals[rnd( 0, 8)]); }
static long pick_day( int cal)
{
   if( cal == CALENDAR_PERSIAN || cal == CALENDAR_CHINESE)
      return( rnd( 2100000, 2700000));
   if( cal == CALENDAR_GREGORIAN || cal == CALENDAR_JULIAN || cal == CALENDAR_JULIAN_GREGORIAN)
      switch( rnd( 0, 5))
         {
         case 0: return( rnd( -1400000, 6300000));
         case 1: return( rnd( 2299100, 2299250));
         case 2: return( rnd( 1720000, 1758000));
         default: return( rnd( 2400000, 2500000));
         }
   return( rnd( 1000000, 3500000));
}
static T pick_time( int cal)
{
   T t = { pick_day( cal), 0, 0};
   switch( rnd( 0, 5))
      {
      case 0: break;
      case 1: t.s = rnd( 0, 1) * 43200; break;
      case 2: t.s = 86399; t.us = rnd( 0, 3) ? 1000000 - rnd( 1, 60) : rnd( 0, 999999); break;
      case 3: t.s = rnd( 0, 23) * 3600 + (one_in( 2) ? 3599 : rnd( 0, 3599)); t.us = one_in( 2) ? 999999 - rnd( 0, 2000) : 0; break;
      case 4: t.s = rnd( 0, 86399); t.us = rnd( 0, 9) * 100000 + (one_in( 2) ? 50000 : 0); break;
      default: t.s = rnd( 0, 86399); t.us = rnd( 0, 999999);
      }
   return( t);
}
static F pick_fmt( void)
{
   F f;
   memset( &f, 0, sizeof( f));
   int u = (int)rnd( 0, 6);
   f.unit = units[u];
   f.fmt = u << 8;
   f.p = (int)rnd( 0, u == 4 ? 4 : u > 4 ? 5 : 6);
   f.cal = pick_cal( );
   f.yf = one_in( 2); f.md = one_in( 2); f.dig = one_in( 3); f.tonly = one_in( 8); f.lz = one_in( 3); f.two = one_in( 8);
   f.noy = one_in( 10); f.dwf = one_in( 8); f.dwl = one_in( 8); f.nosp = one_in( 10); f.rnd = one_in( 3); f.nocol = one_in( 10); f.doy = one_in( 8);
   return( f);
}

/* the names in force: three sets, and single changes */
static const char *mon[3][13] = {
   { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec", NULL },
   { "Januar", "Februar", "Maerz", "April", "Mai", "Juni", "Juli", "August", "September", "Oktober", "November", "Dezember", "Zusatz" },
   { "Tishri", "Heshvan", "Kislev", "Tevet", "Shevat", "Purim", "Veart", "Nisan", "Iyar", "Sivan", "Tammuz", "Av", "Elul" } };
static const char *dow[3][7] = { { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" },
   { "Sonntag", "Montag", "Dienstag", "Mittwoch", "Donnerstag", "Freitag", "Samstag" }, { "Rishon", "Sheni", "Shlishi", "Revii", "Hamishi", "Shishi", "Shabat" } };
static const char *cur_mon[13], *cur_dow[7];
static bool late = false;         /* the thirteenth month is nameless at first */
static void set_names( void)
{
   int set = (int)rnd( 0, 2);
   for( int i = 0; i < 13; i++)
      if( mon[set][i] && !one_in( 5) && (i < 12 || late))
         {
         cur_mon[i] = mon[set][i];
         const char *g = set_month_name( i + 1, cur_mon[i]);
         rec( "{\"op\":\"mname\",\"k\":%d,\"txt\":%s,\"got\":%s}", i + 1, codes( cur_mon[i]).c_str( ), codes( g).c_str( ));
         }
   for( int i = 0; i < 7; i++)
      if( !one_in( 5))
         {
         cur_dow[i] = dow[set][i];
         const char *g = set_day_of_week_name( i, cur_dow[i]);
         rec( "{\"op\":\"wname\",\"k\":%d,\"txt\":%s,\"got\":%s}", i + 1, codes( cur_dow[i]).c_str( ), codes( g).c_str( ));
         }
}

static void show_one( void)
{
   F f = pick_fmt( );
   T t = pick_time( f.cal);
   if( labs( t.d - 2451545) > 1000000 && f.p > 5)
      f.p = 5;
   char b[200], b2[200], b3[200];
   long double v = t2k_of( t);
   inflight( "full_ctimel %.9Lf format 0x%x", v, flags( f));
   memset( b, '#', sizeof( b));
   full_ctimel( b, v, flags( f));
   double jd = (double)( v + 2451545.L);
   full_ctimel( b2, (long double)jd - 2451545.L, flags( f));
   full_ctime( b3, jd, flags( f));
   rec( "{\"op\":\"show\",\"t\":%s,\"f\":%s,\"txt\":%s,\"same\":%d}", js( t).c_str( ), js( f).c_str( ), codes( b).c_str( ), !strcmp( b2, b3));
}
static void long_one( void)
{
   F f = pick_fmt( );
   f.unit = units[f.fmt = (int)rnd( 0, 3)];
   f.fmt <<= 8;
   f.nosp = f.nocol = f.dwl = f.rnd = f.doy = false;
   f.p = (int)rnd( 7, 15);
   if( f.unit[0] == 'D') { f.yf = f.md = true; f.tonly = false; }     /* the decimals come last */
   T t = pick_time( f.cal);
   t.us = 520000;
   char b[200];
   inflight( "full_ctimel %.9Lf format 0x%x", t2k_of( t), flags( f));
   full_ctimel( b, t2k_of( t), flags( f));
   int p = f.p;
   f.p = 1;
   rec( "{\"op\":\"long\",\"t\":%s,\"f\":%s,\"p\":%d,\"txt\":%s}", js( t).c_str( ), js( f).c_str( ), p, codes( b).c_str( ));
}
static void split_one( void)
{
   int cal = pick_cal( ), mo = -9, d = -9, h = -9, mi = -9;
   long y = -9;
   T t = pick_time( cal);
   if( labs( t.d - 2451545) > 1000000)
      t.us = 0;
   inflight( "split_timel %.9Lf calendar %d", t2k_of( t), cal);
   long double s = split_timel( t2k_of( t), &y, &mo, &d, &h, &mi, cal);
   long long u = llrintl( s * 1e+6L);
   long si = (long)( u / 1000000), us = (long)( u % 1000000);
   if( s < 60.L && si == 60) { si = 59; us = 1000000; }
   rec( "{\"op\":\"split\",\"t\":%s,\"cal\":%d,\"y\":%ld,\"m\":%d,\"d\":%d,\"h\":%d,\"mi\":%d,\"s\":%ld,\"us\":%ld}",
         js( t).c_str( ), cal, y, mo, d, h, mi, si, us);
}

/* ------------------------------------------------------------------ reading */
struct Fld { bool name, neg; long v; int nd; long dec; int w; str txt; };
static Fld num( long v, int w = 1, int nd = 0, long dec = 0)
{
   Fld r;
   r.name = false; r.neg = v < 0; r.v = labs( v); r.nd = nd; r.dec = dec; r.w = w;
   return( r);
}
static Fld word( const str &s) { Fld r = num( 0); r.name = true; r.txt = s; return( r); }
static str text( const Fld &f)
{
   if( f.name) return( f.txt);
   str r = fmtf( "%s%0*ld", f.neg ? "-" : "", f.w, f.v);
   return( f.nd ? r + fmtf( ".%0*ld", f.nd, f.dec) : r);
}
static str js( const Fld &f)
{
   return( fmtf( "{\"k\":\"%s\",\"v\":%ld,\"nd\":%d,\"dec\":%ld,\"w\":%d,\"neg\":%s,\"txt\":%s}", f.name ? "m" : "n", f.v, f.nd, f.dec, f.w, tf( f.neg), codes( f.txt).c_str( )));
}
static long p10( int n) { return( n ? 10 * p10( n - 1) : 1); }
static Fld day_field( long d, bool decimals)
{
   int nd = decimals && one_in( 2) ? (int)rnd( 1, 4) : 0;
   return( num( d, (int)rnd( 1, 2), nd, nd ? rnd( 0, p10( nd) - 1) : 0));
}
static Fld month_word( int m)
{
   str s = cur_mon[m - 1];
   if( one_in( 4) && s.size( ) > 3)
      s = s.substr( 0, rnd( 3, (long)s.size( ) - 1));
   else if( one_in( 10))
      s = s.substr( 0, 2);
   else if( one_in( 10) && s.size( ) > 2)
      s += "xx";
   return( word( s));
}
struct Tm { const char *k; int h, hw, ap; str aps; int mi, mnd; long mdec; int s, snd; long sdec; int nf; };
static Tm no_time( void) { Tm t; t.k = "none"; t.h = t.ap = t.mi = t.mnd = t.s = t.snd = t.nf = 0; t.hw = 1; t.mdec = t.sdec = 0; return( t); }
static Tm pick_tm( void)
{
   Tm t = no_time( );
   int k = (int)rnd( 0, 11);
   if( k == 0) { t.k = "keep"; return( t); }
   t.k = k == 1 ? "ms" : "hms";
   t.nf = (int)rnd( 1, k == 1 ? 2 : 3);
   t.h = (int)rnd( 0, 23);
   t.hw = (int)rnd( 1, 2);
   if( k == 1) t.h = 0;
   else if( one_in( 4))
      {
      static const char *ap[8] = { "am", " am", "a.m.", " a.m.", "pm", " pm", "p.m.", " p.m." };
      t.h = (int)rnd( 1, 12);
      int j = (int)rnd( 0, 7);
      t.ap = j < 4 ? 1 : 2;
      t.aps = ap[j];
      }
   if( k == 1 || t.nf > 1)
      {
      t.mi = (int)rnd( 0, 59);
      if( (k == 1 ? 1 : 2) == t.nf && one_in( 3)) { t.mnd = (int)rnd( 1, 4); t.mdec = rnd( 0, p10( t.mnd) - 1); }
      }
   if( t.nf == (k == 1 ? 2 : 3))
      {
      t.s = (int)rnd( 0, 59);
      if( one_in( 2)) { t.snd = (int)rnd( 1, 6); t.sdec = rnd( 0, p10( t.snd) - 1); }
      }
   if( t.ap && t.nf == 1) { t.nf = 2; }
   return( t);
}
static str text( const Tm &t)
{
   if( t.k[0] == 'n') return( "");
   if( t.k[0] == 'k') return( ":");
   str mi = fmtf( "%02d", t.mi), se = fmtf( "%02d", t.s);
   if( t.mnd) mi += fmtf( ".%0*ld", t.mnd, t.mdec);
   if( t.snd) se += fmtf( ".%0*ld", t.snd, t.sdec);
   if( t.k[0] == 'm') return( ":" + mi + (t.nf == 2 ? ":" + se : ""));
   return( fmtf( "%0*d:", t.hw, t.h) + (t.nf > 1 ? mi : "") + (t.nf > 2 ? ":" + se : "") + t.aps);
}
static str js( const Tm &t)
{
   return( fmtf( "{\"k\":\"%s\",\"h\":%d,\"hw\":%d,\"ap\":%d,\"aps\":\"%s\",\"mi\":%d,\"mnd\":%d,\"mdec\":%ld,\"s\":%d,\"snd\":%d,\"sdec\":%ld,\"nf\":%d}",
            t.k, t.h, t.hw, t.ap, t.aps.c_str( ), t.mi, t.mnd, t.mdec, t.s, t.snd, t.sdec, t.nf));
}
struct Off { bool neg; int n; str u; };
struct Ast { const char *k; bool now; std::vector<Fld> f; char sep; bool tight; int bc; Tm tm; int ph; std::vector<Off> offs; Fld x; str pre; };
static str js( const Ast &a)
{
   str f = "[", o = "[";
   for( size_t i = 0; i < a.f.size( ); i++) f += (i ? "," : "") + js( a.f[i]);
   for( size_t i = 0; i < a.offs.size( ); i++)
      o += (i ? "," : "") + fmtf( "{\"neg\":%s,\"n\":%d,\"u\":\"%s\"}", tf( a.offs[i].neg), a.offs[i].n, a.offs[i].u.c_str( ));
   return( fmtf( "{\"k\":\"%s\",\"now\":%s,\"F\":%s],\"sep\":%d,\"tight\":%s,\"bc\":%d,\"tm\":%s,\"ph\":%d,\"offs\":%s],\"x\":%s,\"pre\":\"%s\"}", a.k, tf( a.now),
            f.c_str( ), a.sep, tf( a.tight), a.bc, js( a.tm).c_str( ), a.ph, o.c_str( ), js( a.x).c_str( ), a.pre.c_str( )));
}
static str glue( const str &a, const str &b) { return( a.empty( ) ? b : b.empty( ) ? a : a + " " + b); }
static str joined( const Ast &a, size_t from)
{
   str r;
   for( size_t i = from; i < a.f.size( ); i++)
      {
      str t = text( a.f[i]);
      if( i > from)
         if( !(a.tight && a.sep == ' ' && ((isalpha( r.back( )) && isdigit( t[0])) || (isdigit( r.back( )) && isalpha( t[0])))))
            r += a.sep;
      r += t;
      }
   return( r);
}
static str text( const Ast &a)
{
   str core, tmt = text( a.tm), k = a.k;
   if( k == "jd" || k == "mjd" || k == "y" || k == "gps" || k == "unix") core = a.pre + text( a.x);
   else if( k == "date") core = a.bc == 4 ? text( a.f[0]) + " bc " + joined( a, 1) : joined( a, 0);
   else if( k == "fits") core = text( a.f[0]) + "-" + text( a.f[1]) + "-" + text( a.f[2]) + "T" + tmt;
   else if( k == "one") core = text( a.x);
   if( a.now) core = glue( "now", core);
   if( k != "fits") core = glue( core, tmt);
   if( a.bc == 1) core = "bc " + core;
   if( a.bc == 2) core += " bc";
   if( a.bc == 3) core += " ad";
   if( a.ph >= 0) { static const char *ph[4] = { "nm", "1q", "fm", "3q" }; core = glue( core, ph[a.ph]); }
   for( size_t i = 0; i < a.offs.size( ); i++)
      {
      const Off &o = a.offs[i];
      core += fmtf( " %c%d", o.neg ? '-' : '+', o.n / 10) + (o.n % 10 ? fmtf( ".%d", o.n % 10) : "") + o.u;
      }
   size_t j = core.find_first_not_of( ' ');
   return( j == str::npos ? "" : core.substr( j));
}
static str disguise( str s)           /* upper case, more blanks */
{
   int up = (int)rnd( 0, 2), more = (int)rnd( 0, 3);
   str r = more == 1 ? " " : "";
   for( char c : s)
      {
      r += (up == 1 || (up == 2 && one_in( 2))) ? (char)toupper( c) : c;
      if( c == ' ' && more == 2) r += ' ';
      }
   if( more == 3) r += "  ";
   return( r);
}
static T of_unix( time_t n) { T t = { 2440588 + (long)( n / 86400), (long)( n % 86400), 0}; return( t); }

static long year_for( int cal)
{
   switch( cal)
      {
      case CALENDAR_PERSIAN: return( rnd( 800, 1600));
      case CALENDAR_CHINESE: return( rnd( 3500, 5000));
      case CALENDAR_HEBREW: return( rnd( 3500, 6500));
      case CALENDAR_ISLAMIC: case CALENDAR_MODERN_PERSIAN: return( rnd( 33, 2000));
      case CALENDAR_REVOLUTIONARY: return( rnd( 33, 500));
      default: break;
      }
   long y = one_in( 3) ? rnd( 1700, 2200) : one_in( 3) ? rnd( 33, 99) : one_in( 4) ? -rnd( 1, 5000) : one_in( 4) ? rnd( 1, 31) : rnd( 100, 9999);
   return( cal == CALENDAR_JULIAN_GREGORIAN && y == 1582 ? 1583 : y);
}
static Ast pick_ast( int cal)
{
   Ast a;
   a.now = a.tight = false;
   a.sep = ' '; a.bc = 0; a.tm = no_time( ); a.ph = -1; a.x = num( 0); a.k = "none";
   int kind = (int)rnd( 0, 19);
   const bool ranged = cal == CALENDAR_PERSIAN || cal == CALENDAR_CHINESE;
   bool timed = one_in( 2);
   long y = year_for( cal);
   int m = (int)rnd( 1, 12), d = (int)rnd( 1, 28);
   if( one_in( 8) && cal != CALENDAR_JULIAN_GREGORIAN && !ranged) d = (int)rnd( 1, 31);
   if( kind < 8)                        /* three fields, any order */
      {
      a.k = "date";
      static const char seps[4] = { ' ', '-', '/', '.' };
      a.sep = one_in( 2) ? ' ' : seps[rnd( 0, 3)];
      a.tight = one_in( 2);
      Fld fy = num( y, (int)rnd( 1, 4));
      Fld fd = day_field( d, a.sep != '.');
      Fld fm = (one_in( 2) && a.sep != '.') ? month_word( m) : num( m, (int)rnd( 1, 2));
      static const int ord[6][3] = { { 0,1,2 }, { 0,2,1 }, { 1,0,2 }, { 1,2,0 }, { 2,0,1 }, { 2,1,0 } };
      int o = (int)rnd( 0, 5);
      if( a.sep == '-' && y < 0) o = (int)rnd( 0, 1);
      if( a.sep == '.' && y < 0) a.sep = ' ';
      for( int i = 0; i < 3; i++)
         a.f.push_back( ord[o][i] == 0 ? fy : ord[o][i] == 1 ? fm : fd);
      if( one_in( 6) && y > 0 && cal <= CALENDAR_JULIAN) a.bc = (int)rnd( 1, 4);
      if( a.bc == 4 && (a.sep != ' ' || o > 1)) a.bc = 2;
      }
   else if( kind < 11)                  /* two fields */
      {
      a.k = "date";
      static const char seps[3] = { ' ', '-', '/' };
      a.sep = one_in( 2) ? ' ' : seps[rnd( 0, 2)];
      a.tight = one_in( 2);
      Fld p, q;
      switch( rnd( 0, 3))
         {
         case 0: p = num( m, (int)rnd( 1, 2)); q = day_field( d, true); break;
         case 1: p = month_word( m); q = day_field( d, true); break;
         case 2: p = month_word( m); q = num( y, 4); if( y > 0 && y < 32) q.v = 1950; if( y < 0) a.sep = ' '; break;
         default: if( y < 400) y = y < 33 ? 1777 : 33 + (ranged ? 800 : 400) + y;
            if( cal == CALENDAR_CHINESE) y = 4000;
            if( cal == CALENDAR_JULIAN_GREGORIAN && y == 1582) y = 1583;
            p = num( y, 4); q = day_field( rnd( 1, 365), true); if( q.v == 32) q.v = 33;
         }
      if( one_in( 2)) { a.f.push_back( p); a.f.push_back( q); }
      else { a.f.push_back( q); a.f.push_back( p); }
      if( a.sep == '-' && a.f[1].neg) a.sep = ' ';
      }
   else if( kind < 12)
      {
      a.k = "time";
      timed = true;
      a.now = one_in( 4);
      }
   else if( kind < 13)
      {
      a.k = "fits";
      a.f.push_back( num( cal == CALENDAR_CHINESE ? 4000 : ranged ? 1300 : rnd( 1000, 9999), 4));
      if( cal == CALENDAR_JULIAN_GREGORIAN && a.f[0].v == 1582) a.f[0].v++;
      a.f.push_back( num( m, 2));
      a.f.push_back( num( d, 2));
      a.tm = pick_tm( );
      a.tm.k = "hms"; a.tm.ap = 0; a.tm.aps = ""; a.tm.hw = 2; a.tm.nf = 3; a.tm.mnd = 0; a.tm.mdec = 0;
      timed = false;
      }
   else if( kind < 17)
      {
      a.k = "one";
      int w = (int)rnd( 0, 9);
      switch( w)
         {
         case 0: case 9: a.x = month_word( m); if( a.x.txt.size( ) < 3) a.x.txt = cur_mon[m - 1]; break;
         case 1: case 2: a.x = num( one_in( 4) ? rnd( 1, 9) : rnd( 10, 28), w); if( w == 1 && a.x.v > 9) a.x.v %= 9, a.x.v++; break;
         case 3: a.x = num( rnd( 1, 365), 3); break;
         case 4: a.x = num( cal == CALENDAR_CHINESE ? 4000 : ranged ? 1300 : rnd( 1000, 9999), 4); break;
         case 5: a.x = cal <= 1 ? num( rnd( 10000, 14000), 5) : num( 8, 1); break;
         case 6: a.x = num( rnd( 0, 99) * 10000 + m * 100 + d, 6); if( cal > 1) a.x = num( 9, 1); break;
         case 7: a.x = num( rnd( 1000000, 5000000), 7); break;
         default: y = cal == CALENDAR_CHINESE ? 4000 : ranged ? 1300 : rnd( 1000, 9999);
                  if( cal == CALENDAR_JULIAN_GREGORIAN && y == 1582) y++;
                  a.x = num( y * 10000 + m * 100 + d, 8);
         }
      if( a.x.name && one_in( 2))
         {
         a.x.txt = cur_dow[rnd( 0, 6)];
         if( one_in( 3) && a.x.txt.size( ) > 3) a.x.txt = a.x.txt.substr( 0, 3);
         }
      else if( a.x.w == 4 && cal <= 1 && one_in( 6)) a.bc = (int)rnd( 1, 3);
      if( !a.x.name && one_in( 3) && a.x.w != 8)
         {
         a.x.nd = (int)rnd( 1, a.x.w == 4 || a.x.w == 5 ? 2 : 4);
         a.x.dec = rnd( 0, p10( a.x.nd) - 1);
         if( a.x.w == 4 || a.x.w == 5) a.bc = 0;
         }
      if( a.x.w == 7 && !a.x.name) timed = false;
      }
   else if( kind < 19)
      {
      timed = false;
      static const char *pj[3] = { "jd ", "j", "jd" }, *pm[2] = { "mjd ", "mjd" }, *py[2] = { "y", "y " };
      switch( rnd( 0, 4))
         {
         case 0: a.k = "jd"; a.pre = pj[rnd( 0, 2)]; a.x = num( rnd( 1, 5000000), 1, (int)rnd( 0, 4)); break;
         case 1: a.k = "mjd"; a.pre = pm[rnd( 0, 1)]; a.x = num( rnd( 0, 99999), 1, (int)rnd( 0, 4)); break;
         case 2: a.k = "y"; a.pre = py[rnd( 0, 1)]; a.x = num( rnd( 1000, 3000), 4, (int)rnd( 0, 2)); break;
         case 3: a.k = "gps"; a.pre = "gps "; a.x = num( rnd( 0, 9999) * 10 + rnd( 0, 6), 5); break;
         default: a.k = "unix"; a.pre = "unix "; a.x = num( rnd( 0, 2000000000), 1);
         }
      if( a.x.nd) a.x.dec = rnd( 0, p10( a.x.nd) - 1);
      }
   else
      {
      timed = false;
      a.now = one_in( 2);
      }
   if( timed)
      a.tm = pick_tm( );
   if( one_in( 8)) a.ph = (int)rnd( 0, 3);
   if( one_in( 4) || (!strcmp( a.k, "none") && !a.now && a.ph < 0))
      for( long n = rnd( 1, 3); n; n--)
         {
         Off o;
         o.neg = one_in( 2);
         o.n = one_in( 3) ? (int)rnd( 1, 99) : (int)rnd( 1, 40) * 10;
         o.u = str( 1, "smhdwlyc"[rnd( 0, 7)]);
         if( a.ph >= 0 && o.u == "c") o.u = "d";
         a.offs.push_back( o);
         }
   if( !strcmp( a.k, "none") && !a.now && a.ph < 0 && one_in( 3)) { a.offs.resize( 1); a.offs[0].u = ""; }
   return( a);
}
static F read_fmt( void)
{
   F f = pick_fmt( );
   f.p = 0; f.unit = "S"; f.fmt = 0;
   f.dig = f.tonly = f.lz = f.noy = f.dwf = f.dwl = f.nosp = f.rnd = f.nocol = f.doy = false;
   f.two = one_in( 3);
   return( f);
}
static T pick_init( int cal)
{
   T t = { rnd( 2300000, 2500000), rnd( 0, 86399), rnd( 0, 1) * 500000};
   if( one_in( 3)) t.d = pick_day( cal);
   if( cal == CALENDAR_REVOLUTIONARY && t.d < 2380000) t.d = 2380000 + rnd( 0, 100000);
   if( t.d > 2298700 && t.d < 2299700) t.d = 2299800;
   return( t);
}
static long double read_text( const T &init, const char *s, const F &f, int *ut, bool *same)
{
   int ut2 = 77;
   *ut = 77;
   inflight( "get_time_from_stringl( [%ld,%ld,%ld], \"%s\", 0x%x), now %ld", init.d, init.s, init.us, s, flags( f), (long)fake_now);
   char *copy = strdup( s);                 /* overruns are seen */
   long double v = get_time_from_stringl( t2k_of( init), copy, flags( f), ut);
   double v2 = get_time_from_string( (double)( t2k_of( init) + 2451545.L), copy, flags( f), &ut2);
   double v3 = get_time_from_string( (double)( t2k_of( init) + 2451545.L), copy, flags( f), NULL);
   *same = ut2 == *ut && fabs( v2 - (double)( v + 2451545.L)) < 3e-8 && v2 == v3 && !strcmp( copy, s);
   free( copy);
   return( v);
}
static void parse_one( void)
{
   F f = read_fmt( );
   T init = pick_init( f.cal);
   fake_now = rnd( 0, 3000000000L) > 1500000000 ? rnd( 1600000000, 2147483647) : rnd( 0, 2147483647);
   Ast a = pick_ast( f.cal);
   if( (f.cal == CALENDAR_PERSIAN || f.cal == CALENDAR_CHINESE || f.cal == CALENDAR_JULIAN_GREGORIAN) && a.f.size( ) == 2 && labs( init.d - 2440000) > 200000)
      init.d = 2440000;
   if( a.ph >= 0 && labs( init.d - 2451545) > 170000) init.d = 2451545;
   str s = disguise( text( a));
   if( one_in( 20) && s.size( ) < 78) s += str( 79 - s.size( ), ' ');
   if( s.size( ) > 79) return;
   bool same;
   int ut;
   long double v = read_text( init, s.c_str( ), f, &ut, &same);
   rec( "{\"op\":\"parse\",\"init\":%s,\"f\":%s,\"now\":%ld,\"ast\":%s,\"text\":%s,\"str\":\"%s\",\"ut\":%d,\"same\":%d,\"res\":%s}", js( init).c_str( ), js( f).c_str( ),
         (long)fake_now, js( a).c_str( ), codes( s).c_str( ), s.c_str( ), ut, same, js( of_t2k( v)).c_str( ));
}
static void error_one( void)
{
   F f = read_fmt( );
   f.two = false;
   f.cal = 0;
   T init = pick_init( 0);
   static const char *junk[4] = { "xyzzy", "qux", "zork", "wumpus" };
   static const char *seps = " -/";
   str s, w = junk[rnd( 0, 3)], y = fmtf( "%ld", rnd( 100, 2500)), n = fmtf( "%ld", rnd( 1, 12));
   char c = seps[rnd( 0, 2)];
   int want = -(int)rnd( 1, 6);
   switch( want)
      {
      case -1: s = one_in( 2) ? y + c + "14" + c + "20" : one_in( 2) ? fmtf( "%ld.%ld.%ld", rnd( 14, 31), rnd( 14, 31), rnd( 100, 3000)) : "20081411"; break;
      case -2: s = w; break;
      case -3: s = one_in( 3) ? str( rnd( 0, 100), ' ') : str( rnd( 0, 3), ' ') + "2008 nov 3" + str( rnd( 70, 300), one_in( 2) ? ' ' : 'x'); break;
      case -4: s = w + c + n + c + y; break;
      case -5: s = n + c + w + c + y; break;
      default: s = n + c + y + c + w;
      }
   bool same;
   int ut;
   long double v = read_text( init, s.c_str( ), f, &ut, &same);
   T r = of_t2k( v);
   rec( "{\"op\":\"error\",\"want\":%d,\"init\":%s,\"str\":\"%s\",\"ut\":%d,\"res\":%s}", want, js( init).c_str( ), s.c_str( ), ut, js( r).c_str( ));
}
static void round_one( void)
{
   static const int us[5] = { 0, 1, 3, 5, 6 };
   F f = pick_fmt( );
   int u = us[rnd( 0, 4)];
   f.unit = units[u]; f.fmt = u << 8;
   if( u > 4 && f.p > 5) f.p = 5;
   f.tonly = f.two = f.noy = f.dwf = f.dwl = f.nosp = f.nocol = false;
   T t = pick_time( f.cal);
   if( t.d < 1735000) t.d = 1735000 + rnd( 0, 3000000);
   if( f.cal == CALENDAR_REVOLUTIONARY && t.d < 2380000 + 33 * 366) t.d = 2400000;
   if( f.cal == CALENDAR_ISLAMIC && t.d < 1980000) t.d = 2400000;
   if( f.cal == CALENDAR_MODERN_PERSIAN && t.d < 1980000) t.d = 2400000;
   if( (f.cal == CALENDAR_PERSIAN || f.cal == CALENDAR_CHINESE) && (t.d < 2100000 || t.d > 2700000)) t.d = 2400000;
   if( f.doy && f.cal == CALENDAR_REVOLUTIONARY) f.doy = false;
   if( f.doy && t.d < 2130000) t.d += 500000;
   if( f.doy && f.cal == CALENDAR_JULIAN_GREGORIAN && t.d > 2298800 && t.d < 2299250) t.d += 1000;      /* 1582 */
   char b[200];
   inflight( "full_ctimel %.9Lf format 0x%x", t2k_of( t), flags( f));
   full_ctimel( b, t2k_of( t), flags( f));
   T init = pick_init( f.cal);
   bool same;
   int ut;
   long double v = read_text( init, b, f, &ut, &same);
   rec( "{\"op\":\"round\",\"t\":%s,\"f\":%s,\"str\":\"%s\",\"ut\":%d,\"back\":%s}", js( t).c_str( ), js( f).c_str( ), b, ut, js( of_t2k( v)).c_str( ));
}
static void phase_one( void)
{
   T t = { rnd( 2271000, 2631000), rnd( 0, 86399), 0};
   int ph = (int)rnd( 0, 3);
   inflight( "find_nearest_lunar_phase_time %d %.6Lf", ph, t2k_of( t));
   rec( "{\"op\":\"phase\",\"t\":%s,\"ph\":%d,\"res\":%s}", js( t).c_str( ), ph, js( of_t2k( find_nearest_lunar_phase_time( ph, t2k_of( t)))).c_str( ));
}
static void any_one( void)
{
   static const char *bits[] = { "jan", "13", "32", "2008", "-", "/", ":", ".", " ", "nm", "1q", "bc", "ad", "a.d.", "am", "p.m.", "now", "jd", "mjd", "y",
         "gps ", "unix ", "d", "+3", "-0.5", "h", "t", "00", "99", "1e3", "mon", "x", "Z", "31", "q", "\xe9", "0.", "-1", "w", "inf", "\t", "12:34", "::" };
   str s;
   for( long n = rnd( 1, 12); n; n--)
      s += one_in( 6) ? str( 1, (char)rnd( 1, 255)) : str( bits[rnd( 0, sizeof( bits) / sizeof( bits[0]) - 1)]);
   if( one_in( 4)) s += str( rnd( 1, 80), "x1 .:-"[rnd( 0, 5)]);
   int dig = 0;                                 /* no number of more than eight digits */
   for( char &c : s) { dig = isdigit( (unsigned char)c) ? dig + 1 : 0; if( dig > 8) c = ' '; }
   F f = read_fmt( );
   T init = pick_init( f.cal);
   bool same;
   int ut;
   read_text( init, s.c_str( ), f, &ut, &same);
   rec( "{\"op\":\"any\",\"ut\":%d,\"text\":%s}", ut, codes( s).c_str( ));
}
int main( int argc, char **argv)
{
   bool show = !strcmp( argv[1], "show");
   long n = atol( argv[2]);
   rec_open( );
   rng_seed( env_seed( ) + (show ? 0 : 77));
   for( long i = 0; i < n; i++)
      {
      if( i % 100 == 0)
         {
         if( i == 0)
            for( int k = 0; k < 13; k++) cur_mon[k] = mon[0][k];
         for( int k = 0; k < 12; k++) { cur_mon[k] = mon[0][k]; set_month_name( k + 1, mon[0][k]); }
         for( int k = 0; k < 7; k++) { cur_dow[k] = dow[0][k]; set_day_of_week_name( k, dow[0][k]); }
         rec( "{\"op\":\"start\"}");
         if( cur_mon[12])
            rec( "{\"op\":\"mname\",\"k\":13,\"txt\":%s,\"got\":%s}", codes( cur_mon[12]).c_str( ), codes( cur_mon[12]).c_str( ));
         late = i > n / 2;
         if( rnd( 0, 2) == 0)
            set_names( );
         }
      if( show)
         {
         if( i % 100 == 50 && one_in( 2)) set_names( );
         int k = (int)rnd( 0, 9);
         if( k < 7) show_one( );
         else if( k < 8) long_one( );
         else split_one( );
         }
      else
         {
         int k = (int)rnd( 0, 19);
         if( k < 10) parse_one( );
         else if( k < 12) error_one( );
         else if( k < 16) round_one( );
         else if( k < 17) phase_one( );
         else for( int j = 0; j < 5; j++) any_one( );
         }
      }
   rec_close( );
   return( 0);
}
