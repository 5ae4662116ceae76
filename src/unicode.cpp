// C19: UTF-8 and UTF-16, for every code point, every byte sequence and every short text, against an independent model.
#include "alloc.h"
#include "fw.h"
#include "TSString.h"
#include <algorithm>

using namespace Terathon;

// ---- model (table 3-7 of the Unicode standard) ----

static std::string Enc( uint32_t c )
{
    std::string s;
    if ( c < 0x80 )
        s += char( c );
    else if ( c < 0x800 )
        s += char( 0xC0 + c / 64 ), s += char( 0x80 + c % 64 );
    else if ( c < 0x10000 )
        s += char( 0xE0 + c / 4096 ), s += char( 0x80 + c / 64 % 64 ), s += char( 0x80 + c % 64 );
    else
        s += char( 0xF0 + c / 262144 ), s += char( 0x80 + c / 4096 % 64 ), s += char( 0x80 + c / 64 % 64 ), s += char( 0x80 + c % 64 );
    return s;
}

// Length of the well-formed sequence at p (0: none; -3: an encoded surrogate), which ends at the latest with a null byte.
static inline int Well( const unsigned char* p, uint32_t& code )
{
    auto in = []( unsigned x, unsigned lo, unsigned hi ) { return x >= lo && x <= hi; };
    if ( p[ 0 ] < 0x80 )
    {
        code = p[ 0 ];
        return 1;
    }
    if ( in( p[ 0 ], 0xC2, 0xDF ) )
    {
        if ( !in( p[ 1 ], 0x80, 0xBF ) )
            return 0;
        code = ( p[ 0 ] - 0xC0u ) * 64 + p[ 1 ] - 0x80u;
        return 2;
    }
    if ( in( p[ 0 ], 0xE0, 0xEF ) )
    {
        if ( !in( p[ 1 ], p[ 0 ] == 0xE0 ? 0xA0 : 0x80, 0xBF ) || !in( p[ 2 ], 0x80, 0xBF ) )
            return 0;
        code = ( p[ 0 ] - 0xE0u ) * 4096 + ( p[ 1 ] - 0x80u ) * 64 + p[ 2 ] - 0x80u;
        return p[ 0 ] == 0xED && p[ 1 ] >= 0xA0 ? -3 : 3;
    }
    if ( in( p[ 0 ], 0xF0, 0xF4 ) )
    {
        if ( !in( p[ 1 ], p[ 0 ] == 0xF0 ? 0x90 : 0x80, p[ 0 ] == 0xF4 ? 0x8F : 0xBF ) || !in( p[ 2 ], 0x80, 0xBF ) || !in( p[ 3 ], 0x80, 0xBF ) )
            return 0;
        code = ( p[ 0 ] - 0xF0u ) * 262144 + ( p[ 1 ] - 0x80u ) * 4096 + ( p[ 2 ] - 0x80u ) * 64 + p[ 3 ] - 0x80u;
        return 4;
    }
    return 0;
}

static void Wide( uint32_t c, std::vector<uint16>& w )
{
    if ( c < 0x10000 )
        w.push_back( uint16( c ) );
    else
        w.push_back( uint16( 0xD800 + ( c - 0x10000 ) / 1024 ) ), w.push_back( uint16( 0xDC00 + ( c - 0x10000 ) % 1024 ) );
}

static std::string Hex( const std::string& s )
{
    std::string o;
    char        b[ 8 ];
    for ( unsigned char c : s )
        snprintf( b, sizeof b, "%s%02X", o.empty() ? "" : " ", c ), o += b;
    return o;
}

// ---- checks ----

// Copies that end exactly where the text's terminator is, so that reading further is noticed.
struct Exact
{
    char* p;
    explicit Exact( const std::string& s ) : p( static_cast<char*>( malloc( s.size() + 1 ) ) )
    {
        memcpy( p, s.c_str(), s.size() + 1 );
    }
    ~Exact()
    {
        free( p );
    }
};
struct ExactWide
{
    uint16* p;
    explicit ExactWide( const std::vector<uint16>& w ) : p( static_cast<uint16*>( malloc( w.size() * 2 + 2 ) ) )
    {
        memcpy( p, w.data(), w.size() * 2 );
        p[ w.size() ] = 0;
    }
    ~ExactWide()
    {
        free( p );
    }
};

static bool Sequence( const char* p, std::string& why )
{
    uint32_t want = 0xFFFD;
    uint32   code = 0;
    int      n = Well( reinterpret_cast<const unsigned char*>( p ), want );
    int      v = Text::ValidateUnicodeChar( p ), r = Text::ReadUnicodeChar( p, &code );
    if ( n == -3 ) // encoded surrogates are tolerated or not, but consistently
    {
        if ( ( v == 3 && r == 3 && code == want ) || ( v == 0 && r == 1 && code == 0xFFFD ) )
            return true;
        why = "an encoded surrogate is treated inconsistently";
        return false;
    }
    if ( n == 0 )
        want = 0xFFFD;
    if ( v != n || r != ( n ? n : 1 ) || code != want )
    {
        char b[ 200 ];
        snprintf( b, sizeof b, "validation gives %d, reading gives %d and U+%04X; correct is %d and U+%04X", v, r, code, n, want );
        why = b;
        return false;
    }
    return true;
}

static bool CodePoint( uint32_t c, std::string& why )
{
    char buf[ 12 ];
    memset( buf, 0x7E, sizeof buf );
    int n = Text::WriteUnicodeChar( buf + 4, c );
    int k = Text::GetUnicodeCharByteCount( c );
    if ( c > 0x10FFFF )
    {
        for ( char x : buf )
            if ( x != 0x7E )
                n = -1;
        if ( n == 0 && k == 0 )
            return true;
        why = "a number that is no code point is encoded";
        return false;
    }
    std::string s = Enc( c );
    if ( n != int( s.size() ) || k != n || memcmp( buf + 4, s.data(), s.size() ) )
    {
        why = "the encoding is " + Hex( std::string( buf + 4, 4 ) ) + " of " + std::to_string( n ) + " bytes (announced " + std::to_string( k ) + "), not " + Hex( s );
        return false;
    }
    for ( int i = 0; i < 12; i++ )
        if ( ( i < 4 || i >= 4 + n ) && buf[ i ] != 0x7E )
        {
            why = "encoding writes outside of the " + std::to_string( n ) + " bytes";
            return false;
        }
    return true;
}

// Everything about a text made of given characters.
static bool Chars( const std::vector<uint32_t>& cs, std::string& why )
{
    std::string         s;
    std::vector<int>    at{ 0 };
    std::vector<uint16> w;
    std::vector<size_t> wat{ 0 };
    for ( uint32_t c : cs )
    {
        s += Enc( c );
        at.push_back( int( s.size() ) );
        Wide( c, w );
        wat.push_back( w.size() );
    }
    Exact       t( s );
    ExactWide   tw( w );
    int         n = int( cs.size() );
    auto fail = [ & ]( const std::string& x )
    {
        why = x;
        return false;
    };
    if ( Text::GetUnicodeCharCount( t.p ) != n )
        return fail( "the character count is " + std::to_string( Text::GetUnicodeCharCount( t.p ) ) );
    if ( Text::GetTextLength( t.p ) != int( s.size() ) )
        return fail( "the length is wrong" );
    for ( int i = 0; i <= n; i++ )
    {
        if ( Text::GetUnicodeCharCount( t.p, at[ i ] ) != i )
            return fail( "the character count of the first " + std::to_string( at[ i ] ) + " bytes is " + std::to_string( Text::GetUnicodeCharCount( t.p, at[ i ] ) ) );
        if ( Text::GetUnicodeCharStringByteCount( t.p, i ) != at[ i ] )
            return fail( "the byte count of the first " + std::to_string( i ) + " characters is " + std::to_string( Text::GetUnicodeCharStringByteCount( t.p, i ) ) );
        if ( i > 0 )
        {
            int len = at[ i ] - at[ i - 1 ];
            if ( Text::GetNextUnicodeCharByteCount( t.p + at[ i - 1 ], int( s.size() ) - at[ i - 1 ] ) != len || Text::GetNextUnicodeCharByteCount( t.p + at[ i - 1 ], len ) != len )
                return fail( "the byte count of the next character is wrong at " + std::to_string( at[ i - 1 ] ) );
            if ( Text::GetPreviousUnicodeCharByteCount( t.p + at[ i ], at[ i ] ) != len || Text::GetPreviousUnicodeCharByteCount( t.p + at[ i ], len ) != len )
                return fail( "the byte count of the previous character is wrong at " + std::to_string( at[ i ] ) );
        }
    }
    if ( Text::GetPreviousUnicodeCharByteCount( t.p, 0 ) != 0 )
        return fail( "there is a character before the beginning" );
    if ( Text::GetUnicodeCharStringByteCount( t.p, n + 2 ) != int( s.size() ) )
        return fail( "more characters than there are take other than all bytes" );
    if ( Text::GetUnicodeCharCount( t.p, int( s.size() ) + 5 ) != n )
        return fail( "the character count does not stop at the terminator" );
    if ( Text::GetWideTextCharCount( t.p ) != int( w.size() ) )
        return fail( "the announced UTF-16 length is " + std::to_string( Text::GetWideTextCharCount( t.p ) ) + ", not " + std::to_string( w.size() ) );
    if ( Text::GetUnicodeStringLength( tw.p ) != int( s.size() ) )
        return fail( "the announced UTF-8 length is " + std::to_string( Text::GetUnicodeStringLength( tw.p ) ) + ", not " + std::to_string( s.size() ) );
    // With every amount of room; a character that does not fit completely is left out, as is everything after it.
    for ( size_t max = 0; max <= w.size() + 2; max++ )
    {
        std::vector<uint16> o( max + 1 + 4, 0x7E7E );
        Text::ConvertStringToWideText( t.p, o.data(), int( max ) );
        size_t fit = 0;
        while ( fit < cs.size() && wat[ fit + 1 ] <= max )
            fit++;
        bool ok = o[ wat[ fit ] ] == 0 && std::equal( w.begin(), w.begin() + long( wat[ fit ] ), o.begin() );
        for ( size_t i = max + 1; i < o.size(); i++ )
            ok = ok && o[ i ] == 0x7E7E;
        if ( !ok )
            return fail( "conversion to UTF-16 with room for " + std::to_string( max ) + " is wrong" );
    }
    for ( size_t max = 0; max <= s.size() + 2; max++ )
    {
        std::string o( max + 1 + 4, 0x7E );
        Text::ConvertWideTextToString( tw.p, &o[ 0 ], int( max ) );
        size_t fit = 0;
        while ( fit < cs.size() && size_t( at[ fit + 1 ] ) <= max )
            fit++;
        bool ok = o[ size_t( at[ fit ] ) ] == 0 && !memcmp( o.data(), s.data(), size_t( at[ fit ] ) );
        for ( size_t i = max + 1; i < o.size(); i++ )
            ok = ok && o[ i ] == 0x7E;
        if ( !ok )
            return fail( "conversion to UTF-8 with room for " + std::to_string( max ) + " is wrong" );
    }
    String<> x( tw.p );
    if ( s != static_cast<const char*>( x ) || x.GetStringLength() != int( s.size() ) )
        return fail( "the string made from UTF-16 is " + Hex( static_cast<const char*>( x ) ) );
    return true;
}

// UTF-16 with lone surrogates, which are left out (or replaced): the announced length is the length produced.
static bool WideText( const std::vector<uint16>& w, std::string& why )
{
    ExactWide   t( w );
    std::string drop, repl;
    for ( size_t i = 0; i < w.size(); i++ )
    {
        uint32_t c = w[ i ];
        if ( c >= 0xD800 && c < 0xDC00 && i + 1 < w.size() && w[ i + 1 ] >= 0xDC00 && w[ i + 1 ] < 0xE000 )
            c = 0x10000 + ( c - 0xD800 ) * 1024 + ( w[ ++i ] - 0xDC00u );
        else if ( c >= 0xD800 && c < 0xE000 )
        {
            repl += Enc( 0xFFFD );
            continue;
        }
        drop += Enc( c );
        repl += Enc( c );
    }
    int         n = Text::GetUnicodeStringLength( t.p );
    std::string o( w.size() * 3 + 8, 0x7E );
    Text::ConvertWideTextToString( t.p, &o[ 0 ], int( w.size() * 3 ) );
    std::string got = o.c_str();
    if ( got != drop && got != repl )
    {
        why = "conversion to UTF-8 gives " + Hex( got ) + ", not " + Hex( drop );
        return false;
    }
    if ( n != int( got.size() ) )
    {
        why = "the announced UTF-8 length is " + std::to_string( n ) + ", not " + std::to_string( got.size() );
        return false;
    }
    String<> x( t.p );
    if ( got != static_cast<const char*>( x ) || x.GetStringLength() != n )
    {
        why = "the string made from UTF-16 is " + Hex( static_cast<const char*>( x ) ) + ", not " + Hex( got );
        return false;
    }
    return true;
}

// Any bytes: nothing is read beyond the terminator, counts are bounded, invalid bytes become U+FFFD one by one.
static bool Bytes( const std::string& s, std::string& why )
{
    Exact               t( s );
    std::vector<uint16> w;
    bool                surrogates = false;
    for ( size_t i = 0; i < s.size(); )
    {
        if ( !Sequence( t.p + i, why ) )
        {
            why = "at " + std::to_string( i ) + ": " + why;
            return false;
        }
        uint32_t c;
        int      n = Well( reinterpret_cast<const unsigned char*>( t.p + i ), c );
        if ( n == -3 )
            surrogates = true, n = 0;
        if ( n == 0 )
            c = 0xFFFD, n = 1;
        Wide( c, w );
        i += size_t( n );
    }
    auto fail = [ & ]( const std::string& x )
    {
        why = x;
        return false;
    };
    int n = int( s.size() ), k = Text::GetUnicodeCharCount( t.p );
    if ( k < ( n + 3 ) / 4 || k > n )
        return fail( "the character count is " + std::to_string( k ) + " in a text of " + std::to_string( n ) + " bytes" );
    for ( int i = 0; i <= n + 1; i++ )
    {
        int b = Text::GetUnicodeCharStringByteCount( t.p, i );
        if ( b < ( i < n ? i : n ) - n * ( i > k ) || b > n )
            return fail( "the first " + std::to_string( i ) + " characters take " + std::to_string( b ) + " of " + std::to_string( n ) + " bytes" );
        if ( i <= n )
        {
            int a = Text::GetNextUnicodeCharByteCount( t.p + i, n - i ), p = Text::GetPreviousUnicodeCharByteCount( t.p + i, i );
            if ( a > n - i || p > i || a < ( i < n ) || p < ( i > 0 ) )
                return fail( "the step to the next or previous character at " + std::to_string( i ) + " leaves the text or stands still" );
            int m = Text::GetUnicodeCharCount( t.p, i );
            if ( m > i || m < ( i + 3 ) / 4 )
                return fail( "the character count of the first " + std::to_string( i ) + " bytes is " + std::to_string( m ) );
        }
    }
    int m = Text::GetWideTextCharCount( t.p );
    if ( m < 0 || m > n )
        return fail( "the announced UTF-16 length is " + std::to_string( m ) );
    std::vector<uint16> o( size_t( m ) + 5, 0x7E7E );
    Text::ConvertStringToWideText( t.p, o.data(), m );
    if ( o[ size_t( m ) ] != 0 || std::find( o.begin(), o.begin() + m, 0 ) != o.begin() + m )
        return fail( "the produced UTF-16 length is not the announced " + std::to_string( m ) );
    for ( size_t i = size_t( m ) + 1; i < o.size(); i++ )
        if ( o[ i ] != 0x7E7E )
            return fail( "conversion to UTF-16 writes beyond the announced length" );
    if ( !surrogates && ( size_t( m ) != w.size() || !std::equal( w.begin(), w.end(), o.begin() ) ) )
        return fail( "conversion to UTF-16 is wrong" );
    return true;
}

// Case: 'P' code point | 'Q' four bytes | 'T' code points | 'W' units | 'B' bytes
static bool Run( const std::string& c, std::string& why )
{
    switch ( c[ 0 ] )
    {
        case 'P':
        case 'T':
        {
            std::vector<uint32_t> v( c.size() / 4 );
            memcpy( v.data(), c.data() + 1, v.size() * 4 );
            if ( c[ 0 ] == 'P' )
                return CodePoint( v[ 0 ], why ) && ( v[ 0 ] == 0 || v[ 0 ] > 0x10FFFF || ( v[ 0 ] >= 0xD800 && v[ 0 ] < 0xE000 ) || Chars( v, why ) );
            return Chars( v, why );
        }
        case 'Q':
        {
            char b[ 5 ] = { c[ 1 ], c[ 2 ], c[ 3 ], c[ 4 ], 0 };
            return Sequence( b, why );
        }
        case 'W':
        {
            std::vector<uint16> v( c.size() / 2 );
            memcpy( v.data(), c.data() + 1, v.size() * 2 );
            return WideText( v, why );
        }
        case 'B': return Bytes( c.substr( 1 ), why );
    }
    return true;
}

static std::string Show( const std::string& c )
{
    std::string o = c[ 0 ] == 'P' ? "code point" : c[ 0 ] == 'Q' ? "bytes " : c[ 0 ] == 'T' ? "characters" : c[ 0 ] == 'W' ? "UTF-16" : "text ";
    char        b[ 16 ];
    if ( c[ 0 ] == 'Q' || c[ 0 ] == 'B' )
        return o + Hex( c.substr( 1 ) );
    int k = c[ 0 ] == 'W' ? 2 : 4;
    for ( size_t i = 1; i + size_t( k ) <= c.size(); i += size_t( k ) )
    {
        uint32_t v = 0;
        memcpy( &v, c.data() + i, size_t( k ) );
        snprintf( b, sizeof b, " %04X", v );
        o += b;
    }
    return o;
}

template <class T>
static std::string Pack( char k, const std::vector<T>& v )
{
    return std::string( 1, k ) + std::string( reinterpret_cast<const char*>( v.data() ), v.size() * sizeof( T ) );
}

static void Enumerate( fw::Engine& e )
{
    bool th = e.thorough;
    e.phase( "every code point", 0x200,
             [ & ]( uint64_t u )
             {
                 for ( uint32_t c = uint32_t( u ) * 0x1000; c < uint32_t( u + 1 ) * 0x1000; c++ )
                 {
                     e.check( Pack<uint32_t>( 'P', { c } ) );
                     e.step( 20 );
                     e.state( fw::Mix( 1, c ) );
                 }
             } );
    e.phase( "numbers beyond the code points", 32,
             [ & ]( uint64_t u )
             {
                 for ( int d = -300; d <= 300; d++ )
                     e.check( Pack<uint32_t>( 'P', { ( 1u << u ) + uint32_t( d ) } ) );
                 e.step( 601 );
             } );
    // Four bytes: all, or all with the third and fourth at the boundaries of the classes.
    static const unsigned char edge[] = { 0, 1, 0x22, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF };
    e.phase( "four bytes, boundaries", 65536,
             [ & ]( uint64_t u )
             {
                 std::string c = "Qxxxx";
                 c[ 1 ]        = char( u >> 8 );
                 c[ 2 ]        = char( u );
                 for ( unsigned char x : edge )
                     for ( unsigned char y : edge )
                     {
                         c[ 3 ] = char( x );
                         c[ 4 ] = char( y );
                         e.check( c );
                     }
                 e.step( sizeof edge * sizeof edge );
                 e.state( fw::Mix( 2, u ) );
             } );
    // Run inline; a wrong answer is reported as the case that gives it.
    e.phase( th ? "all four bytes" : "all four bytes with 80-8F first in the third", 65536,
             [ & ]( uint64_t u )
             {
                 char b[ 5 ] = { char( u >> 8 ), char( u ), 0, 0, 0 };
                 e.begin( std::string( "Q" ) + b[ 0 ] + b[ 1 ] + std::string( 2, 0 ) );
                 std::string why;
                 int         lo = th ? 0 : 0x80, hi = th ? 256 : 0x90;
                 for ( int x = lo; x < hi; x++ )
                     for ( int y = 0; y < 256; y++ )
                     {
                         b[ 2 ] = char( x );
                         b[ 3 ] = char( y );
                         if ( !Sequence( b, why ) )
                         {
                             e.violation( std::string( "Q" ) + std::string( b, 4 ), why );
                             return;
                         }
                     }
                 e.sh->exec[ e.phaseId ].fetch_add( uint64_t( hi - lo ) * 256 );
                 e.step( uint64_t( hi - lo ) * 256 );
                 e.slot->busy = 0;
             } );
    e.phase( "all texts of one to three bytes", 255 * 256,
             [ & ]( uint64_t u )
             {
                 std::string c = "B";
                 c += char( u / 256 + 1 );
                 if ( u % 256 == 0 )
                 {
                     e.check( c );
                     return;
                 }
                 c += char( u % 256 );
                 e.check( c );
                 c += 'x';
                 for ( int x = 1; x < 256; x += ( x < 0x20 || ( x > 0x30 && x < 0x70 ) ) && !th ? 7 : 1 )
                 {
                     c[ 3 ] = char( x );
                     e.check( c );
                 }
                 e.step( 256 );
                 e.state( fw::Mix( 3, u ) );
             } );
    // Texts of bytes of every class.
    static const unsigned char cls[] = { 'a', 0x80, 0x9F, 0xA0, 0xBF, 0xC1, 0xC3, 0xE0, 0xE2, 0xED, 0xF0, 0xF4, 0xFF };
    const int                  nc    = sizeof cls;
    int                        depth = th ? 6 : 5;
    e.phase( "texts of bytes of every class", nc * nc,
             [ & ]( uint64_t u )
             {
                 std::function<void( std::string, int )> go = [ & ]( std::string s, int left )
                 {
                     e.check( s );
                     e.step();
                     e.state( fw::HashStr( s ) );
                     if ( left )
                         for ( int i = 0; i < nc; i++ )
                         {
                             e.trans( fw::Mix( fw::HashStr( s ), uint64_t( i ) ) );
                             go( s + char( cls[ i ] ), left - 1 );
                         }
                 };
                 go( std::string( "B" ) + char( cls[ u / nc ] ) + char( cls[ u % nc ] ), depth - 2 );
             } );
    // Texts of characters at the boundaries of every length.
    static const uint32_t ch[] = { 1, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x100000, 0x10FFFF };
    const int             nh   = sizeof ch / 4;
    e.phase( "texts of characters", nh * nh,
             [ & ]( uint64_t u )
             {
                 std::function<void( std::vector<uint32_t>, int )> go = [ & ]( std::vector<uint32_t> s, int left )
                 {
                     std::string c = Pack( 'T', s );
                     e.check( c );
                     e.step();
                     e.state( fw::HashStr( c ) );
                     if ( left )
                         for ( int i = 0; i < nh; i++ )
                         {
                             e.trans( fw::Mix( fw::HashStr( c ), uint64_t( i ) ) );
                             s.push_back( ch[ i ] );
                             go( s, left - 1 );
                             s.pop_back();
                         }
                 };
                 if ( u == 0 )
                     e.check( "T" ), go( { ch[ 0 ] }, 0 );
                 go( { ch[ u / nh ], ch[ u % nh ] }, th ? 3 : 2 );
             } );
    e.phase( "long texts of characters", th ? 400 : 150,
             [ & ]( uint64_t u )
             {
                 for ( int k = 0; k < nh; k++ )
                 {
                     std::vector<uint32_t> s;
                     for ( uint64_t i = 0; i < u; i++ )
                         s.push_back( ch[ ( i + uint64_t( k ) ) % ( k % 2 ? nh : 1 ) + ( k % 2 ? 0 : k ) ] );
                     e.check( Pack( 'T', s ) );
                     e.step();
                 }
             } );
    // UTF-16.
    e.phase( "every unit and every surrogate pair", 65536,
             [ & ]( uint64_t u )
             {
                 if ( u == 0 )
                     return;
                 uint16 x = uint16( u );
                 e.check( Pack<uint16>( 'W', { x } ) );
                 e.check( Pack<uint16>( 'W', { 'a', x, 'b' } ) );
                 if ( x >= 0xD800 && x < 0xDC00 )
                     for ( uint32_t y = 0xDBFF; y <= 0xE000; y++ )
                         e.check( Pack<uint16>( 'W', { x, uint16( y ) } ) );
                 if ( x >= 0xDC00 && x < 0xE000 )
                     for ( uint32_t y = 0xD7FF; y <= 0xDC00; y += th ? 1 : 0x55 )
                         e.check( Pack<uint16>( 'W', { x, uint16( y ) } ) );
                 e.step( 2 );
                 e.state( fw::Mix( 4, u ) );
             } );
    static const uint16 un[] = { 'a', 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF };
    const int           nu   = sizeof un / 2;
    e.phase( "texts of units", nu * nu,
             [ & ]( uint64_t u )
             {
                 std::function<void( std::vector<uint16>, int )> go = [ & ]( std::vector<uint16> s, int left )
                 {
                     std::string c = Pack( 'W', s );
                     e.check( c );
                     e.step();
                     e.state( fw::HashStr( c ) );
                     if ( left )
                         for ( int i = 0; i < nu; i++ )
                         {
                             e.trans( fw::Mix( fw::HashStr( c ), uint64_t( i ) ) );
                             s.push_back( un[ i ] );
                             go( s, left - 1 );
                             s.pop_back();
                         }
                 };
                 go( { un[ u / nu ], un[ u % nu ] }, th ? 4 : 3 );
             } );
}

int main( int argc, char** argv )
{
    return fw::Main( argc, argv, Enumerate, Run, Show );
}
