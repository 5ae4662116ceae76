// C04: parsing any bytes is memory safe and terminates. Built with AddressSanitizer; the unused part of the buffer's
// allocation is poisoned so that any read outside of the buffer's elements is caught.
#include "fw.h"
#include "lib.h"
#include "texts.h"
#include <sanitizer/asan_interface.h>

using namespace lib;

// Case: 'T' + text (terminated), 'R' + raw buffer (as is), 'D' + mode + count (deep nesting), 'W' + word of ways to nest + ' ' + count.
static std::string Expand( const std::string& c )
{
    if ( c[ 0 ] == 'W' )
    {
        std::string close, open = texts::Word( uint64_t( atoll( c.c_str() + 1 ) ), size_t( atoll( c.c_str() + c.find( ' ' ) ) ), &close );
        return open + "1" + close;
    }
    if ( c[ 0 ] != 'D' )
        return c.substr( 1 );
    size_t      n = size_t( atoll( c.c_str() + 2 ) );
    std::string o;
    switch ( c[ 1 ] )
    {
    case '0': return std::string( n, '[' );
    case '1': return texts::Repeat( "{\"a\":", n );
    case '2': return texts::Repeat( "[{\"\":", n );
    case '3': return std::string( n, '[' ) + std::string( n, ']' );
    case '4': return texts::Repeat( "{\"a\":", n ) + "1" + std::string( n, '}' );
    case '5': return texts::Repeat( "[1,", n ) + "2" + std::string( n, ']' );
    case '6': return texts::Repeat( "[[],{\"b\":", n );
    case '7': return std::string( n, ' ' ) + std::string( n, '[' );
    case '8': return "[" + texts::Repeat( "[],", n ) + "[]]";
    case '9': return "[" + texts::Repeat( "\"x\",", n ) + "1";
    }
    return o;
}

static bool Run( const std::string& c, std::string& why )
{
    std::string    text = Expand( c );
    bool           raw  = c[ 0 ] == 'R';
    StructuredData sd;
    static const Array<char>& fixed = *[] { auto a = new Array<char>; Fill( *a, "{\"z\":[1,\"two\",null]}" ); return a; }();
    {
        Array<char> a;
        Fill( a, text, !raw );
        char* end = a.begin() + a.GetArrayElementCount();
        if ( a.begin() )
        {
            char* lim = static_cast<char*>( __asan_region_is_poisoned( end, 1 << 20 ) );
            if ( lim > end )
                ASAN_POISON_MEMORY_REGION( end, size_t( lim - end ) );
        }
        ParseResult r = sd.Parse( a );
        // A readable result: the root can be walked completely.
        if ( r.status == Status::kOk )
        {
            std::string problem;
            if ( Tree( sd.GetRootJsonValue(), &problem ).k == ref::Node::Bad )
            {
                why = "the accepted document cannot be walked: " + problem;
                return false;
            }
        }
        if ( raw && !text.empty() && text.back() != 0 && r.status == Status::kOk )
        {
            why = "a buffer without terminating null was accepted";
            return false;
        }
    }
    // The same object parses something else afterwards.
    ParseResult r = sd.Parse( fixed );
    if ( r.status != Status::kOk || !sd.GetRootJsonValue() )
    {
        why = "a later parse with the same object fails: " + StatusName( r.status );
        return false;
    }
    return true;
}

static std::string Show( const std::string& c )
{
    return fw::Show( c );
}

static void Enumerate( fw::Engine& e )
{
    rlimit rl = { 8 << 20, 8 << 20 };
    setrlimit( RLIMIT_STACK, &rl );
    texts::Bounds q = { 6, 5, 4, 7, 6, 3, 5, 3, false, false, true, true, 300, 2048, 4 };
    texts::Bounds t = { 8, 7, 5, 9, 8, 4, 6, 4, true, true, true, true, 1500, 65536, 6 };
    texts::All( e, e.thorough ? t : q, [ & ]( const std::string& s ) { e.check( "T" + s ); } );

    // Every raw buffer over an alphabet with null bytes, terminated or not.
    const std::string al = std::string( "\0[]{\":,1-.\\u tn\xC3\xF0\x80", 18 );
    int               n  = e.thorough ? 6 : 5;
    uint64_t          k  = al.size();
    e.phase( "raw buffers", k * k,
             [ & ]( uint64_t u )
             {
                 if ( u == 0 )
                 {
                     e.check( "R" );
                     for ( char x : al )
                         e.check( std::string( "R" ) + x );
                 }
                 std::string                                       b = { 'R', al[ u / k ], al[ u % k ] };
                 std::function<void( int )> rec = [ & ]( int left )
                 {
                     e.check( b );
                     if ( !left || e.stopped() )
                         return;
                     for ( char x : al )
                     {
                         b += x;
                         rec( left - 1 );
                         b.pop_back();
                     }
                 };
                 rec( n - 2 );
             } );
    // Every document cut after every byte with no terminator.
    e.phase( "unterminated documents", texts::Documents().size(),
             [ & ]( uint64_t u )
             {
                 const std::string& d = texts::Documents()[ u ];
                 for ( size_t i = 0; i <= d.size(); i++ )
                 {
                     e.check( "R" + d.substr( 0, i ) );
                     e.check( "R" + d.substr( 0, i ) + std::string( 1, '\0' ) );
                     e.check( "R" + d.substr( 0, i ) + std::string( 3, '\0' ) );
                 }
             } );
    static const long deep[] = { 10, 100, 1000, 1023, 1024, 1025, 1026, 2000, 5000, 10000, 20000, 50000, 100000, 200000, 1000000, 5000000 };
    const int         nd     = int( sizeof deep / sizeof deep[ 0 ] ) - ( e.thorough ? 0 : 1 );
    e.phase( "deep nesting", uint64_t( nd ) * 10,
             [ & ]( uint64_t u )
             {
                 e.check( "D" + std::to_string( u % 10 ) + std::to_string( deep[ u / 10 ] ) );
             } );
    const uint64_t nw = texts::Ways().size();
    e.phase( "words of nesting, deep", nw + nw * nw,
             [ & ]( uint64_t u )
             {
                 e.check( "W" + std::to_string( u ) + " 20000" );
                 e.check( "W" + std::to_string( u ) + ( e.thorough ? " 2000000" : " 300000" ) );
             } );
}

int main( int argc, char** argv )
{
    fw::Options o;
    o.hangSeconds = 60;
    return fw::Main( argc, argv, Enumerate, Run, Show, o );
}
