/* Recorder helpers shared by the drivers: ndjson output, the case in flight, a seeded generator. */
#ifndef REC_H
#define REC_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <string>
#include <vector>

static FILE *rec_fp = NULL;
static char *rec_inflight = NULL;
#define REC_INFLIGHT_SIZE 65536

static void rec_open( void)
{
   const char *o = getenv( "VERIF_OUT"), *f = getenv( "VERIF_INFLIGHT");
   rec_fp = o ? fopen( o, "wb") : stdout;
   if( !rec_fp) { fprintf( stderr, "no output\n"); exit( 3); }
   if( f)
      {
      int fd = open( f, O_RDWR | O_CREAT, 0600);
      if( fd < 0 || ftruncate( fd, REC_INFLIGHT_SIZE)) { fprintf( stderr, "no inflight\n"); exit( 3); }
      rec_inflight = (char *)mmap( NULL, REC_INFLIGHT_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      }
   else
      rec_inflight = (char *)calloc( 1, REC_INFLIGHT_SIZE);
   setvbuf( rec_fp, NULL, _IOFBF, 1 << 20);
}

static void inflight( const char *fmt, ...)
{
   va_list ap;
   va_start( ap, fmt);
   vsnprintf( rec_inflight, REC_INFLIGHT_SIZE - 1, fmt, ap);
   va_end( ap);
}

static void rec( const char *fmt, ...)
{
   va_list ap;
   va_start( ap, fmt);
   vfprintf( rec_fp, fmt, ap);
   va_end( ap);
   fputc( '\n', rec_fp);
}

static void rec_close( void) { if( fclose( rec_fp)) exit( 3); }

/* A string as a JSON array of character codes. */
static std::string codes( const char *s, size_t n)
{
   std::string r = "[";
   char t[8];
   for( size_t i = 0; i < n; i++)
      {
      snprintf( t, sizeof( t), i ? ",%d" : "%d", (unsigned char)s[i]);
      r += t;
      }
   return( r + "]");
}
static std::string codes( const char *s) { return( codes( s, strlen( s))); }
static std::string codes( const std::string &s) { return( codes( s.data( ), s.size( ))); }

static std::string ints( const long *v, size_t n)
{
   std::string r = "[";
   for( size_t i = 0; i < n; i++)
      r += (i ? "," : "") + std::to_string( v[i]);
   return( r + "]");
}

static uint64_t rng_s = 88172645463325252ull;
static void rng_seed( uint64_t s) { rng_s = 88172645463325252ull ^ (s * 0x9E3779B97F4A7C15ull); if( !rng_s) rng_s = 1; }
static uint64_t rng( void)
{
   rng_s ^= rng_s << 13; rng_s ^= rng_s >> 7; rng_s ^= rng_s << 17;
   return( rng_s * 2685821657736338717ull);
}
static long rnd( long lo, long hi) { return( lo + (long)( (rng( ) >> 11) % (uint64_t)( hi - lo + 1))); }
static double rndf( double lo, double hi) { return( lo + (hi - lo) * ((rng( ) >> 11) / 9007199254740992.0)); }
static int env_seed( void) { const char *s = getenv( "VERIF_SEED"); return( s ? atoi( s) : 1); }
#endif
