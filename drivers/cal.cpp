/* Records the calendars of the library, run-length compressed without loss.
   For every JD of a window, day_to_dmy() is called, and dmy_to_day() on its answer; consecutive days
   (d, m, y), (d+1, m, y)... whose way back is off by the same amount make one run; runs of one year make
   one record.  Chinese dates also carry the intercalary month reported after each of the two calls. */
#include "watdefs.h"
#include "date.h"
#include "rec.h"

struct Run { long jd, y; int m, d, len; long off; int ic1, ic2; };

static bool clip( long v) { return( v > -2000000000L && v < 2000000000L); }

static void flush_year( int cal, std::vector<Run> &runs)
{
   if( runs.empty( )) return;
   const long y = runs[0].y;
   std::string s = "[";
   for( size_t i = 0; i < runs.size( ); i++)
      {
      const Run &r = runs[i];
      char t[200];
      snprintf( t, sizeof( t), "%s[%ld,%d,%d,%d,%ld]", i ? "," : "", r.jd, r.m, r.d, r.len, clip( r.off) ? r.off : 1999999999L);
      s += t;
      }
   s += "]";
   long dim[13], ext[13];
   for( int m = 1; m <= 13; m++)
      {
      dim[m - 1] = days_in_month( m, y, cal);
      /* day numbers outside the month count on linearly */
      const long a = dmy_to_day( 1, m, y, cal);
      ext[m - 1] = (dmy_to_day( 0, m, y, cal) - a + 1) * 1000 + (dmy_to_day( 35, m, y, cal) - a - 34);
      }
   rec( "{\"cal\":%d,\"y\":%ld,\"runs\":%s,\"dim\":%s,\"ext\":%s,\"ic\":[%d,%d]}", cal, y, s.c_str( ), ints( dim, 13).c_str( ),
            ints( ext, 13).c_str( ), runs[0].ic1, runs[0].ic2);
   runs.clear( );
}

static void window( int cal, long jd0, long jd1)
{
   std::vector<Run> runs;
   rec( "{\"new\":1,\"cal\":%d,\"jd0\":%ld,\"jd1\":%ld}", cal, jd0, jd1);
   for( long jd = jd0; jd <= jd1; jd++)
      {
      int d = -777, m = -777, ic1 = 0, ic2 = 0;
      long y = -777777;
      inflight( "{\"cal\":%d,\"jd\":%ld}", cal, jd);
      day_to_dmy( jd, &d, &m, &y, cal);
      if( cal == CALENDAR_CHINESE) ic1 = get_chinese_intercalary_month( );
      long off = 0;
      if( d != -1)
         {
         if( cal == CALENDAR_CHINESE) dmy_to_day( 1, 1, y > 0 ? y - 1 : y + 1, cal);  /* move the static state away */
         off = dmy_to_day( d, m, y, cal) - jd;
         if( cal == CALENDAR_CHINESE) ic2 = get_chinese_intercalary_month( );
         }
      else
         m = 0, y = 0;
      if( !runs.empty( ) && runs[0].y != y)
         flush_year( cal, runs);
      Run *l = runs.empty( ) ? NULL : &runs.back( );
      if( l && l->m == m && l->off == off && l->ic1 == ic1 && l->ic2 == ic2 && (d == -1 ? l->d == -1 : l->d + l->len == d))
         l->len++;
      else
         {
         if( l && (l->ic1 != ic1 || l->ic2 != ic2)) flush_year( cal, runs);
         Run r = { jd, y, m, d, 1, off, ic1, ic2};
         runs.push_back( r);
         }
      }
   flush_year( cal, runs);
}

int main( int argc, char **argv)
{
   rec_open( );
   /* args: cal jd0 jd1 ... */
   for( int i = 1; i + 2 < argc; i += 3)
      window( atoi( argv[i]), atol( argv[i + 1]), atol( argv[i + 2]));
   static const long oor[] = { -2000000, -100000, -20000, -1097, -1096 - 400, 2328, 2329, 5000, 20000, 100000, 2000000, -364, -365, 9637, 9638};
   const int cals[2] = { CALENDAR_PERSIAN, CALENDAR_CHINESE};
   for( int c = 0; c < 2; c++)
      for( size_t k = 0; k < sizeof( oor) / sizeof( oor[0]); k++)
         {
         const long y = oor[k];
         if( cals[c] == CALENDAR_PERSIAN ? (y >= -1096 && y <= 2327) : (y >= -363 && y <= 9636)) continue;
         inflight( "{\"cal\":%d,\"refuse_y\":%ld}", cals[c], y);
         rec( "{\"refuse\":1,\"cal\":%d,\"y\":%ld,\"jd\":%ld,\"dim\":%d}", cals[c], y, dmy_to_day( 1 + (int)k % 20, 1 + (int)k % 12, y, cals[c]),
                     days_in_month( 1 + (int)k % 12, y, cals[c]));
         }
   rec_close( );
   return( 0);
}
