// C24: comparing, searching, copying and scanning texts, against independent models.
#include "alloc.h"
#include "fw.h"
#include "TSString.h"
#include "TSText.h"
#include <algorithm>

using namespace Terathon;
using Str = std::string;

// ---- models ----

static Str Fold( Str s )
{
    for ( char& c : s )
        if ( c >= 'a' && c <= 'z' )
            c = char( c - 32 );
    return s;
}
static int Cmp( const Str& a, const Str& b )
{
    size_t n = std::min( a.size(), b.size() );
    int    c = n ? memcmp( a.data(), b.data(), n ) : 0;
    return c ? c : a.size() < b.size() ? -1 : a.size() > b.size();
}
static bool Digit( char c )
{
    return c >= '0' && c <= '9';
}
// Runs of digits by number, then fewer digits first; anything else by byte.
static int Numbered( const Str& a, const Str& b )
{
    size_t i = 0, j = 0;
    while ( i < a.size() && j < b.size() )
    {
        if ( Digit( a[ i ] ) && Digit( b[ j ] ) )
        {
            size_t p = i, q = j;
            while ( p < a.size() && Digit( a[ p ] ) )
                p++;
            while ( q < b.size() && Digit( b[ q ] ) )
                q++;
            Str x = a.substr( i, p - i ), y = b.substr( j, q - j );
            Str u = x, v = y;
            u.erase( 0, u.find_first_not_of( '0' ) == Str::npos ? u.size() : u.find_first_not_of( '0' ) );
            v.erase( 0, v.find_first_not_of( '0' ) == Str::npos ? v.size() : v.find_first_not_of( '0' ) );
            if ( u.size() != v.size() )
                return u.size() < v.size() ? -1 : 1;
            if ( u != v )
                return u < v ? -1 : 1;
            if ( x.size() != y.size() )
                return x.size() < y.size() ? -1 : 1;
            i = p;
            j = q;
        }
        else
        {
            unsigned char x = (unsigned char)a[ i ], y = (unsigned char)b[ j ];
            if ( x != y )
                return x < y ? -1 : 1;
            i++;
            j++;
        }
    }
    return i < a.size() ? 1 : j < b.size() ? -1 : 0;
}
static int Unquoted( const Str& s, char k )
{
    bool q = false;
    for ( size_t i = 0; i < s.size(); i++ )
    {
        if ( q )
        {
            if ( s[ i ] == '\\' && i + 1 < s.size() )
                i++;
            else if ( s[ i ] == '"' )
                q = false;
        }
        else if ( s[ i ] == '"' )
            q = true;
        else if ( s[ i ] == k )
            return int( i );
    }
    return -1;
}
static int Find( const Str& a, const Str& b )
{
    size_t p = a.find( b );
    return p == Str::npos ? -1 : int( p );
}

// A text at the very end of its memory block, at a given alignment.
struct Block
{
    char* base;
    char* p;
    Block( const Str& s )
    {
        base = new char[ s.size() + 1 ];
        p    = base;
        memcpy( p, s.data(), s.size() );
        p[ s.size() ] = 0;
    }
    ~Block()
    {
        delete[] base;
    }
};
// Not terminated.
struct Raw
{
    char* p;
    Raw( const Str& s ) : p( new char[ s.size() ] )
    {
        memcpy( p, s.data(), s.size() );
    }
    ~Raw()
    {
        delete[] p;
    }
};

static bool Bad( Str& why, const char* what, long got, long want )
{
    why = Str( what ) + " gives " + std::to_string( got ) + ", expected " + std::to_string( want );
    return false;
}
#define EXPECT( call, want )                                                                                                                                   \
    do                                                                                                                                                         \
    {                                                                                                                                                          \
        long g_ = long( call ), w_ = long( want );                                                                                                             \
        if ( g_ != w_ )                                                                                                                                        \
            return Bad( why, #call, g_, w_ );                                                                                                                  \
    } while ( 0 )

static bool Compare( const Str& a, const Str& b, Str& why )
{
    using namespace Text;
    Block       x( a ), y( b );
    const char *p = x.p, *q = y.p;
    int         c = Cmp( a, b ), f = Cmp( Fold( a ), Fold( b ) );
    EXPECT( CompareText( p, q ), c == 0 );
    EXPECT( CompareTextLessThan( p, q ), c < 0 );
    EXPECT( CompareTextLessEqual( p, q ), c <= 0 );
    EXPECT( CompareTextCaseless( p, q ), f == 0 );
    EXPECT( CompareTextLessThanCaseless( p, q ), f < 0 );
    EXPECT( CompareTextLessEqualCaseless( p, q ), f <= 0 );
    int top = int( std::max( a.size(), b.size() ) ) + 2;
    for ( int m = 0; m <= top; m++ )
    {
        int mc = Cmp( a.substr( 0, size_t( m ) ), b.substr( 0, size_t( m ) ) ), mf = Cmp( Fold( a.substr( 0, size_t( m ) ) ), Fold( b.substr( 0, size_t( m ) ) ) );
        EXPECT( CompareText( p, q, m ), mc == 0 );
        EXPECT( CompareTextLessThan( p, q, m ), mc < 0 );
        EXPECT( CompareTextLessEqual( p, q, m ), mc <= 0 );
        EXPECT( CompareTextCaseless( p, q, m ), mf == 0 );
        EXPECT( CompareTextLessThanCaseless( p, q, m ), mf < 0 );
        EXPECT( CompareTextLessEqualCaseless( p, q, m ), mf <= 0 );
    }
    // Limited by max, the texts need no terminator.
    int n = int( std::min( a.size(), b.size() ) );
    if ( n )
    {
        Raw u( a ), v( b );
        int nc = Cmp( a.substr( 0, size_t( n ) ), b.substr( 0, size_t( n ) ) ), nf = Cmp( Fold( a.substr( 0, size_t( n ) ) ), Fold( b.substr( 0, size_t( n ) ) ) );
        EXPECT( CompareText( u.p, v.p, n ), nc == 0 );
        EXPECT( CompareTextLessThan( u.p, v.p, n ), nc < 0 );
        EXPECT( CompareTextLessEqual( u.p, v.p, n ), nc <= 0 );
        EXPECT( CompareTextCaseless( u.p, v.p, n ), nf == 0 );
        EXPECT( CompareTextLessThanCaseless( u.p, v.p, n ), nf < 0 );
        EXPECT( CompareTextLessEqualCaseless( u.p, v.p, n ), nf <= 0 );
    }
    return true;
}
static bool CompareNumbered( const Str& a, const Str& b, Str& why )
{
    using namespace Text;
    Block       x( a ), y( b );
    const char *p = x.p, *q = y.p;
    EXPECT( CompareNumberedTextLessThan( p, q ), Numbered( a, b ) < 0 );
    EXPECT( CompareNumberedTextLessThanCaseless( p, q ), Numbered( Fold( a ), Fold( b ) ) < 0 );
    return true;
}
static bool Search( const Str& a, const Str& b, Str& why )
{
    using namespace Text;
    Block       x( a ), y( b );
    const char *p = x.p, *q = y.p;
    if ( !b.empty() )
    {
        EXPECT( FindText( p, q ), Find( a, b ) );
        EXPECT( FindTextCaseless( p, q ), Find( Fold( a ), Fold( b ) ) );
    }
    return true;
}
// The length of the longest number [-] digits [. digits] [e [-] digits] at the start.
static size_t FloatLength( const Str& a )
{
    size_t n = !a.empty() && a[ 0 ] == '-' ? 1 : 0, d = 0;
    auto   digits = [ & ]
    {
        size_t k = 0;
        for ( ; n < a.size() && Digit( a[ n ] ); n++ )
            k++;
        return k;
    };
    d = digits();
    if ( n < a.size() && a[ n ] == '.' && ( d || ( n + 1 < a.size() && Digit( a[ n + 1 ] ) ) ) )
    {
        n++;
        d += digits();
    }
    if ( !d )
        return 0;
    size_t whole = n;
    if ( n < a.size() && ( a[ n ] == 'e' || a[ n ] == 'E' ) )
    {
        n++;
        if ( n < a.size() && a[ n ] == '-' )
            n++;
        if ( digits() )
            return n;
    }
    return whole;
}

// Four-character types as text and back.
static bool Types( const Str& a, Str& why )
{
    using namespace Text;
    Block  x( a );
    uint32 v = 0;
    for ( size_t i = 0; i < 4; i++ )
        v = v << 8 | ( i < a.size() ? (unsigned char)a[ i ] : 0 );
    EXPECT( StringToType( x.p ), v );
    if ( a.size() >= 4 )
    {
        Raw r( a.substr( 0, 4 ) );
        EXPECT( StringToType( r.p ), v );
    }
    auto      text = [ & ]( uint32 t, const Str& want )
    {
        String<4> s = TypeToString( t );
        if ( Str( static_cast<const char*>( s ) ) != want )
        {
            why = "TypeToString( " + std::to_string( t ) + " ) is " + fw::Show( static_cast<const char*>( s ) ) + ", not " + fw::Show( want );
            return false;
        }
        char hex[ 32 ];
        snprintf( hex, sizeof hex, "0x%08X '", t );
        String<31> h = TypeToHexCharString( t );
        if ( Str( static_cast<const char*>( h ) ) != hex + want + "'" )
        {
            why = "TypeToHexCharString( " + std::to_string( t ) + " ) is " + fw::Show( static_cast<const char*>( h ) );
            return false;
        }
        return true;
    };
    // Up to four characters from the top; three of them from below the top byte.
    if ( !text( v, a.substr( 0, 4 ) ) )
        return false;
    return a.empty() || a.size() > 3 || text( v >> 8, a );
}
static bool Scan( const Str& a, Str& why )
{
    using namespace Text;
    Block       x( a );
    const char* p = x.p;
    EXPECT( GetTextLength( p ), a.size() );
    uint32 h = 0;
    for ( unsigned char c : a )
        h = ( h ^ c ) * 0x6B84DF47U + 1;
    EXPECT( Hash( p ), h );
    static const char keys[] = { 'a', 'A', '"', '\\', '/', '.', '0', '-', ' ', char( 0x80 ), char( 0xff ), 'z' };
    for ( char k : keys )
    {
        uint32 u     = (unsigned char)k;
        int    first = Find( a, Str( 1, k ) );
        EXPECT( FindChar( p, u ), first );
        EXPECT( FindUnquotedChar( p, u ), k == '"' ? -1 : Unquoted( a, k ) );
        int count = 0;
        for ( int m = 0; m <= int( a.size() ) + 2; m++ )
        {
            EXPECT( FindChar( p, u, m ), first >= 0 && first < m ? first : -1 );
            EXPECT( CountChars( p, u, m ), count );
            count += m < int( a.size() ) && a[ size_t( m ) ] == k;
        }
        if ( !a.empty() )
        {
            Raw r( a );
            EXPECT( FindChar( r.p, u, int( a.size() ) ), first );
            EXPECT( CountChars( r.p, u, int( a.size() ) ), std::count( a.begin(), a.end(), k ) );
        }
    }
    // Copies.
    {
        Raw r( Str( a.size() + 1, '#' ) );
        EXPECT( CopyText( p, r.p ), a.size() );
        if ( memcmp( r.p, p, a.size() + 1 ) != 0 )
        {
            why = "CopyText copies something else";
            return false;
        }
    }
    for ( int m = 0; m <= int( a.size() ) + 2; m++ )
    {
        Str want = a.substr( 0, size_t( m ) );
        Raw r( Str( want.size() + 1, '#' ) );
        EXPECT( CopyText( p, r.p, m ), want.size() );
        if ( memcmp( r.p, want.c_str(), want.size() + 1 ) != 0 )
        {
            why = "CopyText copies something else with room " + std::to_string( m );
            return false;
        }
        // Integers and quoted or plain words: as much as fits.
        size_t n = !a.empty() && a[ 0 ] == '-' ? 1 : 0;
        while ( n < a.size() && Digit( a[ n ] ) )
            n++;
        n = std::min( n, size_t( m ) );
        Raw  i( Str( n + 1, '#' ) );
        EXPECT( ReadInteger( p, i.p, m ), n );
        if ( memcmp( i.p, ( a.substr( 0, n ) ).c_str(), n + 1 ) != 0 )
        {
            why = "ReadInteger copies something else with room " + std::to_string( m );
            return false;
        }
        // Numbers: at least the longest well-formed number, and nothing but what can be in one.
        size_t least = FloatLength( a ), most = std::min( a.find_first_not_of( "+-.0123456789eE" ), a.size() );
        Raw    f( Str( size_t( m ) + 1, '#' ) );
        int    g = ReadFloat( p, f.p, m );
        if ( g < 0 || size_t( g ) < std::min( least, size_t( m ) ) || size_t( g ) > std::min( most, size_t( m ) ) || memcmp( f.p, ( a.substr( 0, size_t( g ) ) ).c_str(), size_t( g ) + 1 ) != 0 )
        {
            why = "ReadFloat with room " + std::to_string( m ) + " takes " + std::to_string( g ) + " of " + std::to_string( least ) + " characters of the number or copies something else";
            return false;
        }
    }
    // Words, with room enough.
    {
        Str    w;
        size_t n = 0;
        if ( !a.empty() && a[ 0 ] == '"' )
        {
            for ( n = 1; n < a.size(); n++ )
            {
                if ( a[ n ] == '\\' )
                {
                    if ( n + 1 < a.size() )
                        w += a[ ++n ];
                }
                else if ( a[ n ] == '"' )
                {
                    n++;
                    break;
                }
                else
                    w += a[ n ];
            }
        }
        else
            for ( ; n < a.size() && (unsigned char)a[ n ] > 32 && a.compare( n, 2, "//" ) != 0; n++ )
                w += a[ n ];
        Raw r( Str( w.size() + 1, '#' ) );
        EXPECT( ReadString( p, r.p, int( a.size() ) + 2 ), n );
        if ( memcmp( r.p, w.c_str(), w.size() + 1 ) != 0 )
        {
            why = "ReadString reads something else";
            return false;
        }
        for ( int m = 0; m <= int( a.size() ); m++ )
        {
            // With less room: never more than fits, and a part of the word.
            Raw s( Str( size_t( m ) + 1, '#' ) );
            int g = ReadString( p, s.p, m );
            Str got( s.p, strnlen( s.p, size_t( m ) + 1 ) );
            if ( got.size() > size_t( m ) || w.compare( 0, got.size(), got ) != 0 || g < 0 || g > int( n ) )
            {
                why = "ReadString with room " + std::to_string( m ) + " reads " + fw::Show( got ) + " and takes " + std::to_string( g );
                return false;
            }
        }
    }
    // Types in single quotes.
    {
        uint32 v = 0, got = 77;
        size_t n = 0;
        if ( !a.empty() && a[ 0 ] == '\'' )
        {
            for ( n = 1; n < a.size(); n++ )
            {
                char c = a[ n ];
                if ( c == '\'' )
                {
                    n++;
                    break;
                }
                if ( c == '\\' )
                {
                    if ( n + 1 >= a.size() )
                        continue;
                    c = a[ ++n ];
                }
                v = v << 8 | (unsigned char)c;
            }
        }
        EXPECT( ReadType( p, &got ), n );
        EXPECT( got, v );
    }
    // Names and paths.
    {
        size_t slash = a.rfind( '/' ), dot = a.rfind( '.' );
        EXPECT( GetDirectoryPathLength( p ), slash == Str::npos ? 0 : slash + 1 );
        EXPECT( GetResourceNameLength( p ), dot != Str::npos && ( slash == Str::npos || dot > slash ) ? dot : a.size() );
        EXPECT( GetPrefixDirectoryLength( p ), a.find( '/' ) == Str::npos ? 0 : a.find( '/' ) + 1 );
    }
    return true;
}

struct Const
{
    const char* text;
    uint32      value;
};
static const Const kHash[] = {
    { "a", Text::StaticHash<'a'>::value },
    { "Z9", Text::StaticHash<'Z', '9'>::value },
    { "foobar", Text::StaticHash<'f', 'o', 'o', 'b', 'a', 'r'>::value },
    { "seventeen letters", Text::StaticHash<'s', 'e', 'v', 'e', 'n', 't', 'e', 'e', 'n', ' ', 'l', 'e', 't', 't', 'e', 'r', 's'>::value },
    { "\x7f\x01", Text::StaticHash<'\x7f', '\x01'>::value },
    { "\x80", Text::StaticHash<'\x80'>::value },
    { "\xff", Text::StaticHash<'\xff'>::value },
    { "na\xC3\xAFve", Text::StaticHash<'n', 'a', '\xC3', '\xAF', 'v', 'e'>::value },
    { "\xE2\x82\xAC 5", Text::StaticHash<'\xE2', '\x82', '\xAC', ' ', '5'>::value },
};

// Case: letter, length of the first text (two bytes), the texts.
static Str Case( char t, const Str& a, const Str& b )
{
    return Str( 1, t ) + char( a.size() & 255 ) + char( a.size() >> 8 ) + a + b;
}

static bool Run( const Str& c, Str& why )
{
    size_t n = (unsigned char)c[ 1 ] | size_t( (unsigned char)c[ 2 ] ) << 8;
    Str    a = c.substr( 3, n ), b = c.substr( 3 + n );
    switch ( c[ 0 ] )
    {
        case 'C': return Compare( a, b, why );
        case 'N': return CompareNumbered( a, b, why );
        case 'F': return Search( a, b, why );
        case 'S': return Scan( a, why );
        case 'T': return Types( a, why );
        case 'H':
            for ( auto& k : kHash )
                if ( k.value != Text::Hash( k.text ) )
                {
                    why = "StaticHash of " + fw::Show( k.text ) + " is " + std::to_string( k.value ) + ", Hash " + std::to_string( Text::Hash( k.text ) );
                    return false;
                }
            return true;
    }
    return false;
}

static std::vector<Str> All( const Str& alphabet, size_t max )
{
    std::vector<Str> r = { "" };
    size_t           from = 0;
    for ( size_t l = 0; l < max; l++ )
    {
        size_t to = r.size();
        for ( size_t i = from; i < to; i++ )
            for ( char c : alphabet )
                r.push_back( r[ i ] + c );
        from = to;
    }
    return r;
}

static void Enumerate( fw::Engine& e )
{
    auto pairs = [ & ]( const char* name, char t, const std::vector<Str>& x, const std::vector<Str>& y )
    {
        e.phase( name, x.size(),
                 [ & ]( uint64_t u )
                 {
                     e.state( fw::HashStr( x[ u ], (unsigned char)t ) );
                     for ( auto& b : y )
                     {
                         if ( e.stopped() )
                             return;
                         e.trans( fw::Mix( fw::HashStr( x[ u ], (unsigned char)t ), fw::HashStr( b ) ) );
                         e.check( Case( t, x[ u ], b ) );
                         e.step( t == 'C' ? 40 : 2 );
                     }
                 } );
    };
    const bool       T = e.thorough;
    std::vector<Str> x = All( "aAzZ@`[{_\x80\xff" "0", T ? 3 : 2 ), y;
    pairs( "compared: classes of bytes", 'C', x, x );
    x = All( "aAb\xE1\xC1", T ? 5 : 4 );
    pairs( "compared: longer", 'C', x, x );
    x.clear();
    for ( int c = 1; c < 256; c++ )
        x.push_back( Str( 1, char( c ) ) );
    pairs( "compared: all bytes", 'C', x, x );
    y.clear();
    for ( auto& s : x )
        y.push_back( "x" + s + "y" );
    pairs( "compared: all bytes within", 'C', y, y );
    y.clear();
    for ( int n = 0; n < 40; n++ )
        for ( char c : { 'a', 'B' } )
            y.push_back( Str( size_t( n ), 'a' ) + c );
    pairs( "compared: lengths", 'C', y, y );

    x = All( "0129aA.", T ? 4 : 3 );
    for ( auto& s : All( "019a", T ? 6 : 5 ) )
        if ( s.size() > ( T ? 4u : 3u ) )
            x.push_back( s );
    pairs( "numbered", 'N', x, x );
    y.clear();
    for ( const char* s : { "0", "1", "9", "10", "4294967295", "4294967296", "4294967297", "42949672960", "04294967296", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999999", "00000000000000000000000001",
                            "2147483647", "2147483648", "1000000000", "9999999999" } )
        for ( const char* t : { "", "a", "1", "b2", ".", "A" } )
            for ( const char* p : { "", "f", "F", "f0" } )
                y.push_back( Str( p ) + s + t );
    pairs( "numbered: large numbers", 'N', y, y );

    x = All( "abA", T ? 8 : 7 );
    y = All( "abB", T ? 4 : 3 );
    pairs( "searched", 'F', x, y );
    x = All( "a\x80\xE0z{Z", T ? 6 : 5 );
    y = All( "a\x80\xC0zZ[", T ? 3 : 2 );
    pairs( "searched: classes of bytes", 'F', x, y );
    x.clear();
    y.clear();
    for ( int c = 1; c < 256; c++ )
    {
        y.push_back( Str( 1, char( c ) ) );
        y.push_back( "q" + Str( 1, char( c ) ) );
        x.push_back( "qq" + Str( 1, char( c ) ) + "r" );
    }
    pairs( "searched: all bytes", 'F', x, y );

    auto singles = [ & ]( const char* name, const Str& alphabet, size_t max )
    {
        std::vector<Str> head = All( alphabet, 2 );
        e.phase( name, head.size(),
                 [ & ]( uint64_t u )
                 {
                     std::function<void( const Str& )> go = [ & ]( const Str& s )
                     {
                         if ( e.stopped() )
                             return;
                         e.state( fw::HashStr( s, 'S' ) );
                         e.check( Case( 'S', s, "" ) );
                         e.step( 150 );
                         if ( s.size() < max )
                             for ( char c : alphabet )
                                 go( s + c );
                     };
                     if ( head[ u ].size() < 2 )
                     {
                         e.check( Case( 'S', head[ u ], "" ) );
                         return;
                     }
                     go( head[ u ] );
                 } );
    };
    singles( "scanned: quotes", "\"\\a /'", T ? 8 : 6 );
    singles( "scanned: numbers", "-+0a.9", T ? 8 : 6 );
    singles( "scanned: floating-point numbers", "-1.eE", T ? 8 : 7 );
    singles( "scanned: paths", "/.a\x80", T ? 10 : 8 );
    singles( "scanned: mixed", "\"\\A\xff\t\n'/-1.", T ? 6 : 5 );
    e.phase( "scanned: all bytes", 255,
             [ & ]( uint64_t u )
             {
                 for ( int c = 1; c < 256; c++ )
                 {
                     Str s = Str( 1, char( u + 1 ) ) + char( c );
                     e.check( Case( 'S', s, "" ) );
                     e.check( Case( 'S', s + s + s + s + s + s, "" ) );
                 }
             } );
    e.phase( "scanned: lengths", 300, [ & ]( uint64_t u ) { e.check( Case( 'S', Str( size_t( u ), char( 'a' + u % 26 ) ), "" ) ); } );
    static const int lengths[] = { 510, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097 };
    e.phase( "scanned: large lengths", ( T ? 1000 : 100 ) + sizeof lengths / sizeof *lengths,
             [ & ]( uint64_t u )
             {
                 size_t n = u < ( T ? 1000 : 100 ) ? 300 + size_t( u ) : size_t( lengths[ u - ( T ? 1000 : 100 ) ] );
                 e.check( Case( 'S', Str( n, 'a' ), "" ) );
                 e.check( Case( 'C', Str( n, 'a' ) + "b", Str( n, 'a' ) + "B" ) );
                 e.check( Case( 'C', Str( n, 'a' ), Str( n, 'a' ) + "\x80" ) );
                 e.check( Case( 'N', Str( n, '1' ) + "1", Str( n, '1' ) + "2" ) );
                 e.check( Case( 'N', Str( n, '0' ) + "1", "1a" ) );
                 e.check( Case( 'F', Str( n, 'a' ) + "b", "ab" ) );
                 e.check( Case( 'F', Str( n, 'a' ) + "b" + Str( n, 'a' ), Str( n, 'a' ) ) );
                 e.check( Case( 'F', "b" + Str( n, 'a' ), Str( n, 'a' ) ) );
             } );
    e.phase( "types", 256,
             [ & ]( uint64_t u )
             {
                 Str s( u ? 1 : 0, char( u ) );
                 e.check( Case( 'T', s, "" ) );
                 if ( u )
                     for ( int c = 1; c < 256; c++ )
                     {
                         Str d( 1, char( c ) );
                         for ( auto& t : { s + d, d + "z" + s, "z" + s + d, s + "zy" + d, d + s + "a" + d, "0a" + s + d, s + "\x80\xff" + d + s, d + "ab" + s + "cdefghijklmno" } )
                             e.check( Case( 'T', t, "" ) );
                     }
             } );
    e.phase( "constant hashes", 1, [ & ]( uint64_t ) { e.check( Case( 'H', "", "" ) ); } );
}

static Str ShowCase( const Str& c )
{
    size_t n = (unsigned char)c[ 1 ] | size_t( (unsigned char)c[ 2 ] ) << 8;
    return Str( 1, c[ 0 ] ) + " \"" + fw::Show( c.substr( 3, n ) ) + "\" \"" + fw::Show( c.substr( 3 + n ) ) + "\"";
}

int main( int argc, char** argv )
{
    return fw::Main( argc, argv, Enumerate, Run, ShowCase );
}
