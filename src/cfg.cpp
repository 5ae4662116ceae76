// C23: every case is given to every build of the library; all must do the same.
#include "fw.h"
#include "alloc.h"
#include "types.h"
#include "texts.h"
#include <dlfcn.h>
#include <glob.h>

using ref::Node;

using RunFn = bool ( * )( const char*, size_t, std::string* );
struct Build
{
    std::string name;
    RunFn       run;
};
static std::vector<Build> builds;

static void Load()
{
    char    exe[ 4096 ];
    ssize_t n = readlink( "/proc/self/exe", exe, sizeof exe - 1 );
    exe[ n > 0 ? n : 0 ] = 0;
    std::string dir      = exe;
    dir.resize( dir.rfind( '/' ) );
    glob_t g;
    if ( glob( ( dir + "/v.*.so" ).c_str(), 0, nullptr, &g ) != 0 )
        abort();
    for ( size_t i = 0; i < g.gl_pathc; i++ )
    {
        std::string p = g.gl_pathv[ i ];
        void*       h = dlopen( p.c_str(), RTLD_NOW | RTLD_LOCAL );
        if ( !h )
        {
            fprintf( stderr, "%s\n", dlerror() );
            _exit( 2 );
        }
        size_t a = p.rfind( "/v." ) + 3;
        builds.push_back( { p.substr( a, p.size() - a - 3 ), reinterpret_cast<RunFn>( dlsym( h, "cfg_run" ) ) } );
    }
    globfree( &g );
    if ( builds.size() < 2 )
        abort();
}

static bool Run( const std::string& c, std::string& why )
{
    static const unsigned char fills[] = { 0xA5, 0x00, 0xFF, 0x22, 0x5A };
    std::string                first, o;
    int                        which = -1;
    for ( size_t i = 0; i < builds.size(); i++ )
    {
        o.clear();
        alloc::fill = fills[ i % sizeof fills ];
        if ( !builds[ i ].run( c.data(), c.size(), &o ) )
            continue;
        if ( which < 0 )
        {
            which = int( i );
            first.swap( o );
        }
        else if ( o != first )
        {
            size_t k = 0;
            while ( k < o.size() && k < first.size() && o[ k ] == first[ k ] )
                k++;
            k   = k > 30 ? k - 30 : 0;
            why = "build " + builds[ i ].name + " gives ..." + fw::Show( o.substr( k ), 300 ) + " where build " + builds[ size_t( which ) ].name + " gives ..." + fw::Show( first.substr( k ), 300 );
            return false;
        }
    }
    return true;
}

static std::string Pair( const std::string& a, const std::string& b )
{
    return "B" + std::string( 1, char( a.size() ) ) + a + b;
}

static void Enumerate( fw::Engine& e )
{
    auto one = [ & ]( const std::string& c )
    {
        e.check( c );
        e.step( builds.size() );
    };
    texts::Bounds q = { 6, 5, 3, 6, 5, 2, 4, 2, false, true, false, true, 200, 1100, 4 };
    texts::Bounds t = { 8, 6, 5, 9, 8, 4, 5, 4, true, true, true, true, 600, 3000, 6 };
    texts::All( e, e.thorough ? t : q, [ & ]( const std::string& s ) { one( "P" + s ); } );

    e.phase( "written documents", texts::Documents().size(), [ & ]( uint64_t u ) { one( "W" + texts::Documents()[ u ] ); } );
    e.phase( "written strings", 0x110,
             [ & ]( uint64_t u )
             {
                 for ( unsigned lo = 0; lo < 256; lo += u ? 37 : 1 )
                 {
                     char b[ 32 ];
                     snprintf( b, sizeof b, "[\"\\u%04x\"]", unsigned( u << 8 | lo ) );
                     one( std::string( "W" ) + b );
                     std::string x;
                     ref::PutUtf8( x, uint32_t( u << 8 | lo ) );
                     if ( u || lo >= 32 )
                         one( std::string( "W[\"" ) + ( lo == '"' || lo == '\\' ? "\\" : "" ) + x + "\"]" );
                 }
             } );
    // Numbers that are written and read.
    e.phase( "numbers written", 2048,
             [ & ]( uint64_t u )
             {
                 std::string s = "N";
                 for ( uint64_t m : { 0ull, 1ull, 0x8000000000000ull, 0xFFFFFFFFFFFFFull, 0x5555555555555ull, 0x999999999999Aull, 0x3C0FFEE123456ull, 0x0000000FFFFFFull } )
                     for ( uint64_t sign : { 0, 1 } )
                     {
                         uint64_t x = sign << 63 | u << 52 | m;
                         if ( u == 2047 )
                             one( "N" + std::string( reinterpret_cast<char*>( &x ), 8 ) );
                         else
                             s.append( reinterpret_cast<char*>( &x ), 8 );
                     }
                 if ( s.size() > 1 )
                     one( s );
             } );
    e.phase( "numbers read", 700,
             [ & ]( uint64_t u )
             {
                 for ( const char* m : { "1", "9", "1.5", "-4.9406564584124654", "17976931348623157", "0.1234567890123456789", "2.2250738585072011", "123456789012345678901234567890", "0.000001", "0" } )
                     one( std::string( "W[" ) + m + "e" + std::to_string( int( u ) - 350 ) + "]" );
             } );
    e.phase( "integers", 65536,
             [ & ]( uint64_t u )
             {
                 uint64_t v[] = { u, ~u, u << 16, u << 32 | 0xFFFF, u << 48, u * 1000003, 0x8000000000000000ull + u, 0x80000000ull - 32768 + u, 0x100000000ull - 32768 + u };
                 for ( uint64_t x : v )
                     if ( e.thorough || u % 8 == 0 || u < 2048 )
                         one( "I" + std::string( reinterpret_cast<char*>( &x ), 8 ) );
             } );
    e.phase( "statuses", 29, [ & ]( uint64_t u ) { one( "E" + std::string( 1, char( u ) ) ); } );
    // Texts.
    e.phase( "pairs of bytes", 255,
             [ & ]( uint64_t u )
             {
                 for ( int c = 1; c < 256; c++ )
                 {
                     std::string x( 1, char( u + 1 ) ), y( 1, char( c ) );
                     one( Pair( x, y ) );
                     one( Pair( x + y, y ) );
                     one( Pair( "a" + x, "a" + y + "b" ) );
                     one( Pair( x + y + "\x80", "\xC3\xA9" ) );
                     one( Pair( "\xE1" + x + y, "\xF1" + y + x ) );
                 }
             } );
    static const std::vector<std::string> words = { "", "a", "A", "b", "Z", "\x7f", "\x80", "\xff", "\xC3\xA9", "\xC3", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xED\xA0\x80", "0", "10", "9", "\"", "\n", "_", "aB", "ab0" };
    const size_t W = words.size();
    e.phase( "pairs of texts", W * W,
             [ & ]( uint64_t u )
             {
                 const std::string &a = words[ u / W ], &b = words[ u % W ];
                 for ( auto& c : words )
                     for ( auto& d : words )
                     {
                         one( Pair( a + b, c + d ) );
                         if ( e.thorough )
                             for ( auto& f : words )
                                 one( Pair( a + f + b, c + d ) );
                     }
             } );
    // Described types.
    const auto& fam = T::Family();
    for ( size_t i = 0; i < fam.size(); i++ )
    {
        std::vector<Node> d = fam[ i ].docs( e.thorough ? 2 : 1 );
        e.phase( ( "type " + fam[ i ].name ).c_str(), d.size(),
                 [ & ]( uint64_t u )
                 {
                     std::string t = ref::Text( d[ u ] );
                     one( "T" + std::string( 1, char( i ) ) + t );
                 } );
    }
}

int main( int argc, char** argv )
{
    Load();
    return fw::Main( argc, argv, Enumerate, Run );
}
