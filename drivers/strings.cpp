/* Text in bounded buffers.   strings N */
#include <sys/wait.h>
#include "rec.h"
#include "watdefs.h"
#include "stringex.h"
#include "mpc_func.h"
int snprintf_append_trunc( char *string, const size_t max_len, const char *format, ...);
typedef std::string str;
static bool one_in( int n) { return( rnd( 1, n) == 1); }
static str word( int maxlen) { str r; for( long k = rnd( 0, maxlen); k; k--) r += "aab%c \303"[rnd( 0, 6)]; return( r); }
int main( int argc, char **argv)
{
   const int n = atoi( argv[1]);
   rng_seed( env_seed( ) * 131 + 18);
   rec_open( );
   for( int i = 0; i < n; i++)
      {
      const str src = word( one_in( 3) ? 40 : 9);
      if( one_in( 3))
         {
         const str old = one_in( 20) ? str( ) : one_in( 2) && src.size( ) ? src.substr( (size_t)rnd( 0, (long)src.size( ) - 1), (size_t)rnd( 1, 3)) : word( 3), with = one_in( 3) ? str( ) : word( 5);
         size_t room = src.size( ) + 1, count = 0;
         if( old.size( )) for( size_t k = 0; k + old.size( ) <= src.size( ); ) if( !src.compare( k, old.size( ), old)) { count++; k += old.size( ); } else k++;
         if( with.size( ) > old.size( )) room += count * (with.size( ) - old.size( ));
         char *b = (char *)malloc( room);
         strcpy( b, src.c_str( ));
         inflight( "text_search_and_replace '%s' '%s' '%s'", src.c_str( ), old.c_str( ), with.c_str( ));
         alarm( 20);
         const int rc = text_search_and_replace( b, old.c_str( ), with.c_str( ));
         alarm( 0);
         rec( "{\"op\":\"replace\",\"died\":0,\"rc\":%d,\"src\":%s,\"old\":%s,\"new\":%s,\"after\":%s}", rc, codes( src).c_str( ), codes( old).c_str( ), codes( with).c_str( ), codes( b, room).c_str( ));
         free( b);
         continue;
         }
      const int op = (int)rnd( 0, 6);      /* 0-2 never die, 3-6 may */
      static const char *names[7] = { "copy", "cat", "append_trunc", "copy_err", "print_err", "cat_err", "append" };
      const size_t size = (size_t)rnd( op < 2 ? 0 : 1, one_in( 3) ? 60 : 14);
      char *b = (char *)malloc( size + 1) , *s = strdup( src.c_str( ));
      str have = word( 12);
      for( size_t k = 0; k < size; k++) b[k] = (char)('Q' + k % 7);
      if( size) { const size_t m = have.size( ) < size ? have.size( ) : size - 1; memcpy( b, have.data( ), m); b[m] = 0; }
      if( op == 1 && one_in( 12)) for( size_t k = 0; k < size; k++) b[k] = 'q';        /* no end in sight */
      b = (char *)realloc( b, size ? size : 1);
      const str before = codes( b, size);
      bool child = false;
      int died = 0;
      long rc = 0;
      inflight( "%s size %d have %s src %s", names[op], (int)size, before.c_str( ), codes( src).c_str( ));
      if( op > 2 && (src.size( ) >= size || one_in( 20) || (op > 4 && src.size( ) + strlen( b) >= size)))
         {                    /* in a child, so as to see it die */
         fflush( rec_fp);
         const pid_t pid = fork( );
         if( !pid)
            {
            fclose( stderr);
            child = true;
            }
         else
            {
            int st = 0;
            waitpid( pid, &st, 0);
            died = WIFSIGNALED( st) || WEXITSTATUS( st);
            if( died)
               {
               rec( "{\"op\":\"%s\",\"size\":%d,\"before\":%s,\"src\":%s,\"died\":1,\"rc\":0,\"after\":[]}", names[op], (int)size, before.c_str( ), codes( src).c_str( ));
               free( b); free( s);
               continue;
               }
            }
         }
      if( op == 0) rc = (long)strlcpy( b, s, size);
      if( op == 1) rc = (long)strlcat( b, s, size);
      if( op == 2) rc = snprintf_append_trunc( b, size, "%s", s);
      if( op == 3) rc = (long)strlcpy_err( b, s, size);
      if( op == 4) rc = snprintf_err( b, size, "%s", s);
      if( op == 5) rc = (long)strlcat_err( b, s, size);
      if( op == 6) rc = snprintf_append( b, size, "%s", s);
      if( child) _exit( 0);
      rec( "{\"op\":\"%s\",\"size\":%d,\"before\":%s,\"src\":%s,\"died\":0,\"rc\":%ld,\"after\":%s}", names[op], (int)size, before.c_str( ), codes( src).c_str( ), rc, codes( b, size).c_str( ));
      free( b); free( s);
      }
   rec_close( );
   return( 0);
}
