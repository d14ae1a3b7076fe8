/* Form data.   form N SCRATCHDIR */
#include "rec.h"
#include "cgi_func.h"
typedef std::string str;
static bool one_in( int n) { return( rnd( 1, n) == 1); }
static str fmtf( const char *f, ...) { char b[900]; va_list ap; va_start( ap, f); vsnprintf( b, sizeof( b), f, ap); va_end( ap); return( b); }
static str word( int maxlen, bool odd)
{
   str r;
   for( long k = rnd( 0, one_in( 8) ? maxlen : 9); k; k--)
      r += odd && one_in( 4) ? "&=%+ #?/\\\"\n\r\t;\001\177\303\251\377"[rnd( 0, 19)] : "abcdefgXYZ0123456789._-"[rnd( 0, 22)];
   return( r);
}
static str url_enc( const str &s)
{
   const int mode = (int)rnd( 0, 3);
   str r;
   for( char c : s)
      {
      const bool plain = isalnum( (unsigned char)c) || c == '.' || c == '_' || c == '-';
      if( c == ' ' && mode != 1) r += '+';
      else if( plain && mode != 1) r += c;
      else if( mode == 2 && (unsigned char)c > 32 && !strchr( "&=%+", c)) r += c;
      else r += fmtf( one_in( 2) ? "%%%02X" : "%%%02x", (unsigned char)c);
      }
   return( r);
}
static str url_form( void)
{
   str r;
   for( long k = rnd( 0, 5); k; k--) r += (r.empty( ) ? "" : "&") + url_enc( word( 45, one_in( 3))) + "=" + url_enc( word( 300, true));
   if( one_in( 5)) r += one_in( 2) ? "&" : "\r\n";
   while( one_in( 3))         /* damage */
      {
      const size_t at = (size_t)rnd( 0, (long)r.size( ));
      switch( rnd( 0, 4))
         {
         case 0: r.insert( at, "%"); break;
         case 1: r = r.substr( 0, at); break;
         case 2: r.insert( at, one_in( 2) ? "=" : "&"); break;
         case 3: r.insert( at, one_in( 2) ? "%4" : "%g1"); break;
         default: if( at < r.size( )) r[at] = (char)rnd( 1, 255);
         }
      }
   return( r);
}
static str multi_form( str &bnd)
{
   const char *eol = one_in( 5) ? "\n" : "\r\n";
   bnd = str( (size_t)rnd( 2, 30), '-') + word( 40, false) + "x";
   str r = bnd + eol;
   const long parts = rnd( 0, 4);
   for( long k = 0; k < parts; k++)
      {
      str name = word( 45, false);
      r += "Content-Disposition: form-data; name=\"" + name + "\"";
      if( one_in( 3)) { r += "; filename=\"" + word( 30, false) + "\"" + eol; if( !one_in( 4)) r += str( "Content-Type: text/plain") + eol; if( one_in( 6)) r += str( "X-More: 1") + eol; }
      else r += eol;
      if( !one_in( 25)) r += eol;
      for( long j = rnd( 0, 4); j; j--) r += one_in( 9) ? bnd.substr( 0, bnd.size( ) - 1) + eol : word( 90, one_in( 2)) + (one_in( 8) && j == 1 ? "" : eol);
      if( r.size( ) && r.back( ) != '\n') r += eol;
      r += bnd + (k == parts - 1 && !one_in( 5) ? "--" : "") + eol;
      }
   while( one_in( 5))
      {
      const size_t at = (size_t)rnd( 0, (long)r.size( ));
      if( one_in( 2)) r = r.substr( 0, at); else if( at < r.size( )) r.erase( at, (size_t)rnd( 1, 30));
      }
   return( r);
}
static str opt( const str *s) { return( s ? "[" + codes( *s) + "]" : "[]"); }
int main( int argc, char **argv)
{
   const int n = atoi( argv[1]);
   if( chdir( argv[2])) { perror( argv[2]); return( 3); }
   rng_seed( env_seed( ) * 131 + 17);
   rec_open( );
   for( int i = 0; i < n; i++)
      if( one_in( 2))
         {
         const str s = url_form( );
         const size_t mf = (size_t)rnd( 1, 40), mb = (size_t)(one_in( 3) ? rnd( 1, 12) : rnd( 100, 400));
         char *text = strdup( s.c_str( )), *field = (char *)malloc( mf), *val = (char *)malloc( mb);
         const char *p = text;
         str got;
         inflight( "get_urlencoded_form_data %s %d %d", codes( s).c_str( ), (int)mf, (int)mb);
         for( int k = 0; k < 50; k++)
            {
            memset( field, 'Z', mf); memset( val, 'Z', mb);
            const int rc = get_urlencoded_form_data( &p, field, mf, val, mb);
            got += fmtf( "%s{\"rc\":%d,\"pos\":%d,\"file\":[]", k ? "," : "", rc, (int)( p - text)) + ",\"field\":" + (rc < 0 ? "[]" : codes( field)) + ",\"val\":" + (rc < 0 ? "[]" : codes( val)) + "}";
            if( rc) break;
            }
         rec( "{\"op\":\"url\",\"s\":%s,\"mf\":%d,\"mb\":%d,\"got\":[%s]}", codes( s.c_str( )).c_str( ), (int)mf, (int)mb, got.c_str( ));
         free( text); free( field); free( val);
         }
      else
         {
         str bnd, query = one_in( 6) ? str( ) : url_form( ), type, input, len;
         const bool is_multi = !one_in( 3);
         input = is_multi ? multi_form( bnd) : url_form( ) + (one_in( 2) ? "\r\n" : "");
         for( auto &c : query) if( c == '\0') c = 'q';
         type = is_multi ? "multipart/form-data; boundary=" + (bnd.size( ) > 2 ? bnd.substr( 2) : bnd) : "application/x-www-form-urlencoded" + str( one_in( 4) ? "; charset=UTF-8" : "");
         if( one_in( 12)) type = type.substr( 0, (size_t)rnd( 0, 40));
         if( one_in( 25)) type = "text/plain";
         len = one_in( 20) ? str( one_in( 2) ? "0" : "x") : one_in( 9) && !is_multi ? fmtf( "%d", (int)rnd( 1, 40)) : fmtf( "%d", (int)input.size( ));
         const bool hq = one_in( 3), ht = !one_in( 15), hl = !one_in( 15);
         if( hq) setenv( "QUERY_STRING", query.c_str( ), 1); else unsetenv( "QUERY_STRING");
         if( ht) setenv( "CONTENT_TYPE", type.c_str( ), 1); else unsetenv( "CONTENT_TYPE");
         if( hl) setenv( "CONTENT_LENGTH", len.c_str( ), 1); else unsetenv( "CONTENT_LENGTH");
         input = input.c_str( );
         if( is_multi) len = fmtf( "%d", (int)input.size( ));
         if( hl && is_multi) setenv( "CONTENT_LENGTH", len.c_str( ), 1);
         FILE *f = fopen( "input", "wb"); fwrite( input.data( ), 1, input.size( ), f); fclose( f);
         if( !freopen( "input", "rb", stdin)) { perror( "input"); return( 3); }
         const size_t mb = (size_t)(one_in( 6) ? rnd( 20, 100) : rnd( 150, 2000));
         char *field = (char *)malloc( 30), *val = (char *)malloc( mb), *file = (char *)malloc( mb);
         const bool hf = !one_in( 3);
         str got;
         inflight( "session %s type %s len %s input %s", codes( query).c_str( ), type.c_str( ), len.c_str( ), codes( input).c_str( ));
         const int rc0 = initialize_cgi_reading( );
         for( int k = 0; k < 30; k++)
            {
            memset( field, 'Z', 30); memset( val, 'Z', mb); memset( file, 'Z', mb);
            const int rc = get_cgi_data( field, val, hf ? file : NULL, mb);
            got += fmtf( "%s{\"rc\":%d", k ? "," : "", rc) + ",\"field\":" + (rc < 0 ? "[]" : codes( field)) + ",\"val\":" + (rc < 0 ? "[]" : codes( val)) + ",\"file\":" + (rc < 0 || !hf ? "[]" : codes( file)) + "}";
            if( rc) break;
            }
         free_cgi_data( );
         rec( "{\"op\":\"session\",\"r\":{\"query\":%s,\"type\":%s,\"len\":%s,\"input\":%s},\"mb\":%d,\"hf\":%s,\"rc\":%d,\"got\":[%s]}",
               opt( hq ? &query : NULL).c_str( ), opt( ht ? &type : NULL).c_str( ), opt( hl ? &len : NULL).c_str( ), codes( input).c_str( ), (int)mb, hf ? "true" : "false", rc0, got.c_str( ));
         free( field); free( val); free( file);
         }
   rec_close( );
   return( 0);
}
