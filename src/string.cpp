// C18: the string types under every sequence of operations, against std::string (with truncation for a fixed capacity).
#include "alloc.h"
#include "fw.h"
#include "TSString.h"
#include <climits>

using namespace Terathon;

static uint64_t before, after;

static std::string Make( int length, int kind )
{
    // Letters of both cases, bytes beyond ASCII, characters with escapes; different kinds differ from the first byte on.
    static const char* pool[ 3 ] = { "aBcDeFgHiJkLmNoPqRsTuVwXyZ0123456789", "Z\xC3\xA9y\xE2\x82\xAC@[`{xW\xFF\x80\x7F~vU", "q\"\\\n\t\x01pO\x1F'\r" };
    std::string        s;
    const char*        p = pool[ kind ];
    size_t             n = strlen( p );
    for ( int i = 0; i < length; i++ )
        s += p[ size_t( i + i / int( n ) ) % n ];
    return s;
}

static std::string Escaped( const std::string& s )
{
    std::string o;
    for ( unsigned char c : s )
    {
        char b[ 8 ];
        if ( c >= 7 && c <= 13 )
            o += std::string( "\\" ) + "abtnvfr"[ c - 7 ];
        else if ( c == '"' || c == '\\' )
            o += std::string( "\\" ) + char( c );
        else if ( c < 32 || c == 127 )
        {
            snprintf( b, sizeof b, "\\x%02X", c );
            o += b;
        }
        else
            o += char( c );
    }
    return o;
}

static const int     kLen[]  = { 0, 1, 15, 16, 17, 40, 62, 63, 64, 65, 130 };
static const int32   kI32[]  = { 0, 7, -1, INT_MIN, INT_MAX, 1000000000 };
static const uint32  kU32[]  = { 0, 9, 4294967295U, 2147483648U };
static const int64   kI64[]  = { 0, -9, INT64_MIN, INT64_MAX, 4294967296LL };
static const uint64  kU64[]  = { 0, 99, UINT64_MAX, 9223372036854775808ULL, 18446744073709551609ULL };
static const int     kSet[]  = { 0, 1, 15, 16, 40, 63, 64, 100, 200 };

template <int N>
struct World
{
    using S = String<N>;
    std::unique_ptr<S> a, b;
    std::string        ma, mb, why;

    bool fail( const std::string& s )
    {
        why = s;
        return false;
    }
    static std::string cut( const std::string& s )
    {
        return N && s.size() > size_t( N ) ? s.substr( 0, N ) : s;
    }

    bool same( const S& s, const std::string& m, const char* what )
    {
        const char* p = static_cast<const char*>( s );
        size_t      n = strlen( p );
        if ( std::string( p, n ) != m )
            return fail( std::string( what ) + " holds \"" + fw::Show( std::string( p, n ) ) + "\" (" + std::to_string( n ) + "), not \"" + fw::Show( m ) + "\" (" + std::to_string( m.size() ) + ")" );
        if ( s.GetStringLength() != int32( n ) )
            return fail( std::string( what ) + " gives its length as " + std::to_string( s.GetStringLength() ) + ", not " + std::to_string( n ) );
        return true;
    }

    // Whatever a string holds after its contents were moved away, it must be consistent.
    bool adopt( const S& s, std::string& m )
    {
        m = static_cast<const char*>( s );
        if ( s.GetStringLength() != int32( m.size() ) )
            return fail( "the length of a string that was moved from does not match its text" );
        return true;
    }

    bool relations( const S& s, const std::string& ms, const S& t, const std::string& mt )
    {
        const char* p = static_cast<const char*>( t );
        int         c = ms.compare( mt ); // by unsigned bytes
        bool        ok = ( s == t ) == ( c == 0 ) && ( s != t ) == ( c != 0 ) && ( s == p ) == ( c == 0 ) && ( s != p ) == ( c != 0 ) && ( s < p ) == ( c < 0 ) && ( s <= p ) == ( c <= 0 ) &&
                  ( s > p ) == ( c > 0 ) && ( s >= p ) == ( c >= 0 );
        if ( !ok )
            return fail( "comparing \"" + fw::Show( ms ) + "\" with \"" + fw::Show( mt ) + "\" gives a wrong answer" );
        StringKey    k( s );
        ConstCharKey q( s );
        if ( ( k == p ) != ( c == 0 ) || ( k != p ) != ( c != 0 ) || ( k < p ) != ( c < 0 ) || ( q == p ) != ( c == 0 ) || ( q != p ) != ( c != 0 ) || ( q < p ) != ( c < 0 ) )
            return fail( "comparing the keys of \"" + fw::Show( ms ) + "\" and \"" + fw::Show( mt ) + "\" gives a wrong answer" );
        return true;
    }

    bool apply( char op, int arg )
    {
        S& x = *a;
        switch ( op )
        {
            case '=': // texts of every kind and length
            {
                std::string t = Make( kLen[ arg >> 2 ], arg & 3 );
                if ( &( x = t.c_str() ) != &x )
                    return fail( "assigning returns another object" );
                ma = cut( t );
                break;
            }
            case '+':
            {
                std::string t = Make( kLen[ arg >> 2 ], arg & 3 );
                x += t.c_str();
                ma = cut( ma + t );
                break;
            }
            case 'k':
                x += "k\xE9"[ arg ];
                ma = cut( ma + "k\xE9"[ arg ] );
                break;
            case 'b': // a = b
                x  = static_cast<const S&>( *b );
                ma = mb;
                break;
            case 'B': // b = a
                *b = static_cast<const S&>( x );
                mb = ma;
                break;
            case 'c': // b = a, by pointer
                *b = static_cast<const char*>( x );
                mb = ma;
                break;
            case 'p': // a += b
                x += *b;
                ma = cut( ma + mb );
                break;
            case 'P': // b += a, by pointer
                *b += static_cast<const char*>( x );
                mb = cut( mb + ma );
                break;
            case 'm': // a = move( b )
                x  = static_cast<S&&>( *b );
                ma = mb;
                return adopt( *b, mb );
            case 'M':
                *b = static_cast<S&&>( x );
                mb = ma;
                return adopt( x, ma );
            case 's': x = static_cast<const S&>( x ); break;
            case 'S': x = static_cast<S&&>( x ); break;
            case 'd':
                x += x;
                ma = cut( ma + ma );
                break;
            case 'D': // the end of itself, by pointer
            {
                int k = arg == 0 ? 0 : arg == 1 ? int( ma.size() + 1 ) / 2 : arg == 2 ? ( ma.size() ? 1 : 0 ) : int( ma.size() );
                x += static_cast<const char*>( x ) + k;
                ma = cut( ma + ma.substr( size_t( k ) ) );
                break;
            }
            case 'o': // set to a part of itself
            {
                int k = arg == 0 ? 0 : arg == 1 ? int( ma.size() + 1 ) / 2 : arg == 2 ? ( ma.size() ? 1 : 0 ) : int( ma.size() );
                x     = static_cast<const char*>( x ) + k;
                ma    = ma.substr( size_t( k ) );
                break;
            }
            case 'O':
            {
                int k = int( ma.size() ) / 3, n = int( ma.size() ) / 2;
                x.Set( static_cast<const char*>( x ) + k, n );
                ma = ma.substr( size_t( k ), size_t( n ) );
                break;
            }
            case 'Q':
                if constexpr ( N == 0 )
                {
                    int k = int( ma.size() ) / 3, n = arg ? int( ma.size() ) + 3 : int( ma.size() ) / 2;
                    x.AppendString( static_cast<const char*>( x ) + k, n );
                    ma = cut( ma + ma.substr( size_t( k ), size_t( n ) ) );
                }
                break;
            case 'i':
                x  = kI32[ arg ];
                ma = cut( std::to_string( kI32[ arg ] ) );
                break;
            case 'I':
                x += kI32[ arg ];
                ma = cut( ma + std::to_string( kI32[ arg ] ) );
                break;
            case 'u':
                x  = kU32[ arg ];
                ma = cut( std::to_string( kU32[ arg ] ) );
                break;
            case 'U':
                x += kU32[ arg ];
                ma = cut( ma + std::to_string( kU32[ arg ] ) );
                break;
            case 'l':
                x  = kI64[ arg ];
                ma = cut( std::to_string( kI64[ arg ] ) );
                break;
            case 'L':
                x += kI64[ arg ];
                ma = cut( ma + std::to_string( kI64[ arg ] ) );
                break;
            case 'N':
                x += kU64[ arg ];
                ma = cut( ma + std::to_string( kU64[ arg ] ) );
                break;
            case 'n': // constructed from numbers
            {
                std::unique_ptr<S> t;
                std::string        m;
                if ( arg < 6 )
                    t.reset( new S( kI32[ arg ] ) ), m = std::to_string( kI32[ arg ] );
                else if ( arg < 10 )
                    t.reset( new S( kU32[ arg - 6 ] ) ), m = std::to_string( kU32[ arg - 6 ] );
                else
                    t.reset( new S( kI64[ arg - 10 ] ) ), m = std::to_string( kI64[ arg - 10 ] );
                a.swap( t );
                ma = cut( m );
                break;
            }
            case 't': // lengths; what is new is written afterwards
            {
                int n = kSet[ arg ];
                if ( N && n > N )
                    n = N;
                x.SetStringLength( n );
                char* p = static_cast<char*>( x );
                if ( size_t( n ) <= ma.size() )
                    ma.resize( size_t( n ) );
                else
                {
                    if ( std::string( p, ma.size() ) != ma || p[ n ] != 0 )
                        return fail( "growing a string loses its text" );
                    for ( int i = int( ma.size() ); i < n; i++ )
                        p[ i ] = 'f';
                    ma.resize( size_t( n ), 'f' );
                }
                break;
            }
            case 'e': // Set with a length: 0, 1, less than, exactly, more than the text has
            case 'E': // AppendString, likewise
            {
                std::string t = Make( kLen[ arg >> 2 ], 0 );
                int         n = ( arg & 3 ) == 0 ? int( t.size() ) / 2 : ( arg & 3 ) == 1 ? int( t.size() ) : ( arg & 3 ) == 2 ? int( t.size() ) + 20 : 0;
                if ( op == 'e' )
                    x.Set( t.c_str(), n ), ma = cut( t.substr( 0, size_t( n ) ) );
                else
                    x.AppendString( t.c_str(), n ), ma = cut( ma + t.substr( 0, size_t( n ) ) );
                break;
            }
            case 'f': // constructed with a length
            {
                std::string t = Make( kLen[ arg >> 2 ], 1 );
                int         n = ( arg & 3 ) == 0 ? int( t.size() ) / 2 : ( arg & 3 ) == 1 ? int( t.size() ) : int( t.size() ) + 20;
                a.reset( new S( t.c_str(), n ) );
                ma = cut( t.substr( 0, size_t( n ) ) );
                break;
            }
            case 'g':
            {
                std::string t = Make( kLen[ arg >> 2 ], arg & 3 );
                a.reset( new S( t.c_str() ) );
                ma = cut( t );
                break;
            }
            case 'y': // copy, keep the copy
            case 'Y': // copy, keep the original; the copy changes
            {
                std::unique_ptr<S> t( new S( static_cast<const S&>( x ) ) );
                if ( !same( *t, ma, "copy" ) )
                    return false;
                if ( op == 'y' )
                    a.swap( t );
                *t += "changed";
                if ( !same( *t, cut( ma + "changed" ), "changed copy" ) )
                    return false;
                break;
            }
            case 'w': // move, keep the new one
            case 'W': // move, keep the old one
            {
                std::unique_ptr<S> t( new S( static_cast<S&&>( x ) ) );
                if ( !same( *t, ma, "moved string" ) )
                    return false;
                if ( op == 'w' )
                {
                    std::string mt;
                    if ( !adopt( x, mt ) )
                        return false;
                    x += "more";
                    if ( !same( x, cut( mt + "more" ), "string that was moved from, extended" ) )
                        return false;
                    a.swap( t );
                }
                else
                    return adopt( x, ma );
                break;
            }
            case 'a': // sums
            {
                std::string t = Make( kLen[ arg ], 1 );
                S           r = static_cast<const S&>( x ) + t.c_str();
                if ( !same( r, cut( ma + t ), "sum" ) || !same( x, ma, "operand of a sum" ) )
                    return false;
                *b = static_cast<S&&>( r );
                mb = cut( ma + t );
                break;
            }
            case 'A':
            {
                std::string t = arg == 0 ? std::to_string( INT_MIN ) : arg == 1 ? std::to_string( UINT_MAX ) : std::to_string( INT64_MIN );
                S           r = arg == 0 ? static_cast<const S&>( x ) + int32( INT_MIN ) : arg == 1 ? static_cast<const S&>( x ) + uint32( UINT_MAX ) : static_cast<const S&>( x ) + int64( INT64_MIN );
                if ( !same( r, cut( ma + t ), "sum" ) || !same( x, ma, "operand of a sum" ) )
                    return false;
                *b = static_cast<const S&>( r );
                mb = cut( ma + t );
                break;
            }
        }
        if constexpr ( N == 0 )
            switch ( op )
            {
                case 'z':
                    x.PurgeString();
                    ma.clear();
                    break;
                case 'v':
                    x.ConvertToLowerCase();
                    for ( char& c : ma )
                        if ( c >= 'A' && c <= 'Z' )
                            c = char( c + 32 );
                    break;
                case 'V':
                    x.ConvertToUpperCase();
                    for ( char& c : ma )
                        if ( c >= 'a' && c <= 'z' )
                            c = char( c - 32 );
                    break;
                case 'r':
                    x.ReplaceChar( arg == 0 ? 'B' : '\xC3', arg == 0 ? '\xC3' : 'k' );
                    for ( char& c : ma )
                        if ( c == ( arg == 0 ? 'B' : '\xC3' ) )
                            c = arg == 0 ? '\xC3' : 'k';
                    break;
                case 'x':
                    x.EncodeEscapeSequences();
                    ma = Escaped( ma );
                    break;
                case 'h': // from UTF-16
                {
                    std::vector<uint16> w;
                    std::string         m;
                    for ( int i = 0; i < kLen[ arg ]; i++ )
                    {
                        w.push_back( uint16( i % 3 == 0 ? 'a' + i % 26 : i % 3 == 1 ? 0xE9 : 0x20AC ) );
                        m += i % 3 == 0 ? std::string( 1, char( 'a' + i % 26 ) ) : i % 3 == 1 ? "\xC3\xA9" : "\xE2\x82\xAC";
                    }
                    w.push_back( 0 );
                    a.reset( new S( w.data() ) );
                    ma = m;
                    break;
                }
            }
        return true;
    }
};

static uint64_t Hash( const std::string& a, const std::string& b, int n )
{
    return fw::HashStr( b, fw::HashStr( a, uint64_t( n ) + 77 ) );
}

template <int N>
static bool RunOps( const std::string& c, std::string& why )
{
    alloc::mismatch = false;
    std::string w2;
    w2.reserve( 2000 );
    long l0 = alloc::live;
    bool ok = true;
    {
        World<N> w;
        w.ma = World<N>::cut( Make( kLen[ uint8_t( c[ 2 ] ) & 15 ], 0 ) );
        w.mb = World<N>::cut( Make( kLen[ uint8_t( c[ 2 ] ) >> 4 ], 1 ) );
        w.a.reset( new String<N>( w.ma.c_str() ) );
        w.b.reset( new String<N>( w.mb.c_str() ) );
        for ( size_t i = 3; i + 1 < c.size(); i += 2 )
        {
            bool last = i + 3 >= c.size();
            if ( last )
                before = Hash( w.ma, w.mb, N );
            ok = w.apply( c[ i ], uint8_t( c[ i + 1 ] ) ) && w.same( *w.a, w.ma, "string" ) && w.same( *w.b, w.mb, "other string" );
            if ( last )
                after = Hash( w.ma, w.mb, N );
            if ( ok && last )
                ok = w.relations( *w.a, w.ma, *w.b, w.mb ) && w.relations( *w.b, w.mb, *w.a, w.ma ) && w.relations( *w.a, w.ma, *w.a, w.ma );
            if ( !ok )
            {
                w2 = "after operation " + std::to_string( ( i - 3 ) / 2 + 1 ) + " (" + c[ i ] + std::to_string( uint8_t( c[ i + 1 ] ) ) + "): " + w.why;
                break;
            }
        }
    }
    if ( !ok )
    {
        why = w2;
        return false;
    }
    if ( alloc::live != l0 )
    {
        why = std::to_string( alloc::live - l0 ) + " blocks are not released after the strings are destroyed";
        return false;
    }
    if ( alloc::mismatch )
    {
        why = "memory is released by another form of delete";
        return false;
    }
    return true;
}

static bool Compare( const std::string& x, const std::string& y, std::string& why )
{
    World<0> w;
    w.a.reset( new String<>( x.c_str() ) );
    w.b.reset( new String<>( y.c_str() ) );
    World<8> v;
    v.a.reset( new String<8>( x.c_str() ) );
    v.b.reset( new String<8>( y.c_str() ) );
    bool ok = w.relations( *w.a, x, *w.b, y );
    if ( !ok )
        why = w.why;
    if ( ok && !v.relations( *v.a, x, *v.b, y ) )
    {
        ok  = false;
        why = v.why;
    }
    // Across the two kinds, by pointer.
    int c = x.compare( y );
    if ( ok && ( ( *w.a == static_cast<const char*>( *v.b ) ) != ( c == 0 ) || ( *v.a < static_cast<const char*>( *w.b ) ) != ( c < 0 ) ) )
    {
        ok  = false;
        why = "comparing strings of different kinds gives a wrong answer";
    }
    return ok;
}

// The conversions of one text, x becoming y in one of them, and copies that stay as they were.
static bool Transform( const std::string& t, char x, char y, std::string& why )
{
    std::string up = t, low = t, rep = t;
    for ( char& c : up )
        c = c >= 'a' && c <= 'z' ? char( c - 32 ) : c;
    for ( char& c : low )
        c = c >= 'A' && c <= 'Z' ? char( c + 32 ) : c;
    for ( char& c : rep )
        c = c == x ? y : c;
    const std::string want[] = { up, low, rep, Escaped( t ), Escaped( t ) + "end" };
    static const char* const name[] = { "upper case", "lower case", "a replaced character", "escapes", "escapes and more text" };
    String<> a( t.c_str() );
    for ( int i = 0; i < 5; i++ )
    {
        String<> b( a );
        switch ( i )
        {
            case 0: b.ConvertToUpperCase(); break;
            case 1: b.ConvertToLowerCase(); break;
            case 2: b.ReplaceChar( x, y ); break;
            case 3: b.EncodeEscapeSequences(); break;
            case 4: b.EncodeEscapeSequences() += "end"; break;
        }
        if ( want[ i ] != static_cast<const char*>( b ) || b.GetStringLength() != int32( want[ i ].size() ) )
        {
            why = std::string( "with " ) + name[ i ] + " the string is \"" + fw::Show( static_cast<const char*>( b ) ) + "\" of length " + std::to_string( b.GetStringLength() ) + ", not \"" + fw::Show( want[ i ] ) + "\"";
            return false;
        }
        if ( t != static_cast<const char*>( a ) )
        {
            why = "changing a copy changes the original";
            return false;
        }
    }
    return true;
}

// The text of a number in a buffer of max + 1 characters.
static bool Number( int64 n, bool wide, int max, std::string& why )
{
    char buf[ 40 ];
    memset( buf, 0x7E, sizeof buf );
    std::string full = std::to_string( n ), want = full.substr( 0, size_t( max ) );
    int32       r = wide ? Text::Integer64ToString( n, buf + 4, max ) : Text::IntegerToString( int32( n ), buf + 4, max );
    for ( int i = 0; i < 40; i++ )
        if ( ( i < 4 || i > 4 + max ) && buf[ i ] != 0x7E )
        {
            why = "converting " + full + " with room for " + std::to_string( max ) + " writes outside the buffer";
            return false;
        }
    if ( !memchr( buf + 4, 0, size_t( max ) + 1 ) || want != buf + 4 || r != int32( want.size() ) )
    {
        why = "converting " + full + " with room for " + std::to_string( max ) + " gives \"" + fw::Show( std::string( buf + 4, strnlen( buf + 4, 30 ) ) ) + "\" and length " + std::to_string( r );
        return false;
    }
    return true;
}

static bool Hex( uint64 v, std::string& why )
{
    char b[ 32 ];
    snprintf( b, sizeof b, "%016llX", (unsigned long long)v );
    if ( strcmp( Text::Integer64ToHexString16( v ), b ) || strcmp( Text::IntegerToHexString8( uint32( v ) ), b + 8 ) || strcmp( Text::IntegerToHexString4( uint32( v ) ), b + 12 ) ||
         strcmp( Text::IntegerToHexString2( uint32( v ) ), b + 14 ) )
    {
        why = std::string( "the hexadecimal form of " ) + b + " is wrong";
        return false;
    }
    return true;
}

// Everything that depends on lengths, with a text of n characters and another of k.
template <int N>
static bool Lengths( int n, int k, std::string& why )
{
    using S = String<N>;
    auto cut = []( const std::string& t ) { return N && t.size() > size_t( N ) ? t.substr( 0, size_t( N ) ) : t; };
    std::string t, u;
    for ( int i = 0; i < n; i++ )
        t += char( 'a' + i % 25 );
    for ( int i = 0; i < k; i++ )
        u += char( 'A' + i % 23 );
    auto is = [ & ]( const S& s, const std::string& full, const char* what )
    {
        std::string want = cut( full ), got = static_cast<const char*>( s );
        if ( got == want && s.GetStringLength() == int32( want.size() ) )
            return true;
        why = std::string( what ) + " with " + std::to_string( n ) + " and " + std::to_string( k ) + " characters gives " + std::to_string( got.size() ) + " (length " + std::to_string( s.GetStringLength() ) + ") instead of " +
              std::to_string( want.size() ) + " characters, or others";
        return false;
    };
    S a( t.c_str() ), b( u.c_str() ), c, d( static_cast<const S&>( a ) ), f( t.c_str(), n / 2 ), g;
    if ( !is( a, t, "construction" ) || !is( b, u, "construction" ) || !is( d, t, "copying" ) || !is( f, t.substr( 0, size_t( n / 2 ) ), "construction of a part" ) )
        return false;
    d += u.c_str();
    c = u.c_str();
    c += a;
    if ( !is( d, cut( t ) + u, "appending" ) || !is( c, u + cut( t ), "appending a string" ) )
        return false;
    S m( static_cast<S&&>( d ) ), e = static_cast<const S&>( a ) + u.c_str();
    if ( !is( m, t + u, "moving" ) || !is( e, t + u, "a sum" ) )
        return false;
    e = static_cast<const S&>( b );
    if ( !is( e, u, "assigning" ) )
        return false;
    e.Set( t.c_str(), n / 2 );
    g = static_cast<S&&>( m );
    if ( !is( e, t.substr( 0, size_t( n / 2 ) ), "setting" ) || !is( g, t + u, "assigning a moved string" ) )
        return false;
    e.AppendString( u.c_str(), k );
    e += 'x';
    if ( !is( e, cut( t.substr( 0, size_t( n / 2 ) ) + u ) + "x", "appending a part" ) )
        return false;
    if ( N == 0 )
    {
        a += a;
        if ( !is( a, t + t, "appending a string to itself" ) )
            return false;
    }
    a = t.c_str();
    a.SetStringLength( std::min( k, int( cut( t ).size() ) ) );
    if ( !is( a, t.substr( 0, size_t( std::min( k, int( cut( t ).size() ) ) ) ), "shortening" ) )
        return false;
    a = t.c_str();
    a += 12345;
    return is( a, cut( t ) + "12345", "appending a number" );
}

// Case: 'T' x y text | 'S' capacity, prefill, operations | 'C' length x y | 'N' width max value | 'X' value
static bool Run( const std::string& c, std::string& why )
{
    switch ( c[ 0 ] )
    {
        case 'S':
            switch ( c[ 1 ] )
            {
                case '0': return RunOps<0>( c, why );
                case '1': return RunOps<1>( c, why );
                case '4': return RunOps<4>( c, why );
                case '7': return RunOps<7>( c, why );
                case 'o': return RunOps<24>( c, why );
                case 'h': return RunOps<100>( c, why );
                case 'H': return RunOps<256>( c, why );
            }
            return true;
        case 'Z':
        {
            int n = 0, k = 0;
            sscanf( c.c_str() + 2, "%d %d", &n, &k );
            return c[ 1 ] == '0' ? Lengths<0>( n, k, why ) : c[ 1 ] == '1' ? Lengths<15>( n, k, why ) : c[ 1 ] == '2' ? Lengths<64>( n, k, why ) : Lengths<1000>( n, k, why );
        }
        case 'T': return Transform( c.substr( 3 ), c[ 1 ], c[ 2 ], why );
        case 'C': return Compare( c.substr( 2, size_t( c[ 1 ] ) ), c.substr( 2 + size_t( c[ 1 ] ) ), why );
        case 'N':
        {
            int64 v;
            memcpy( &v, c.data() + 3, 8 );
            return Number( v, c[ 1 ] == 'l', c[ 2 ], why );
        }
        case 'X':
        {
            uint64 v;
            memcpy( &v, c.data() + 1, 8 );
            return Hex( v, why );
        }
    }
    return true;
}

static std::string Show( const std::string& c )
{
    if ( c[ 0 ] == 'Z' )
        return "lengths " + c.substr( 1 );
    if ( c[ 0 ] == 'C' )
        return "compare \"" + fw::Show( c.substr( 2, size_t( c[ 1 ] ) ) ) + "\" \"" + fw::Show( c.substr( 2 + size_t( c[ 1 ] ) ) ) + "\"";
    if ( c[ 0 ] == 'T' )
        return "transform \"" + fw::Show( c.substr( 3 ) ) + "\", replacing " + std::to_string( uint8_t( c[ 1 ] ) ) + " by " + std::to_string( uint8_t( c[ 2 ] ) );
    if ( c[ 0 ] == 'N' || c[ 0 ] == 'X' )
    {
        int64 v;
        memcpy( &v, c.data() + ( c[ 0 ] == 'N' ? 3 : 1 ), 8 );
        return "number " + std::to_string( v ) + ( c[ 0 ] == 'N' ? " room " + std::to_string( c[ 2 ] ) : " hex" );
    }
    std::string s = std::string( "String " ) + c[ 1 ] + " from lengths " + std::to_string( kLen[ uint8_t( c[ 2 ] ) & 15 ] ) + "," + std::to_string( kLen[ uint8_t( c[ 2 ] ) >> 4 ] ) + ":";
    for ( size_t i = 3; i + 1 < c.size() && i < 60; i += 2 )
        s += std::string( " " ) + c[ i ] + std::to_string( uint8_t( c[ i + 1 ] ) );
    return s;
}

static void Enumerate( fw::Engine& e )
{
    bool                              th = e.thorough;
    using Ops = std::vector<std::pair<char, int>>;
    Ops full, mid, small;
    for ( int l = 0; l < 11; l++ )
    {
        full.push_back( { '=', l * 4 + l % 3 } );
        full.push_back( { '+', l * 4 + ( l + 1 ) % 3 } );
    }
    for ( char op : { 'b', 'B', 'c', 'p', 'P', 'm', 'M', 's', 'S', 'd', 'O', 'y', 'Y', 'w', 'W', 'z', 'v', 'V', 'x' } )
        full.push_back( { op, 0 } );
    for ( int k = 0; k < 2; k++ )
        for ( char op : { 'k', 'r', 'Q' } )
            full.push_back( { op, k } );
    for ( int k = 0; k < 4; k++ )
        for ( char op : { 'D', 'o' } )
            full.push_back( { op, k } );
    for ( auto o : Ops{ { 'i', 3 }, { 'i', 1 }, { 'I', 3 }, { 'I', 4 }, { 'u', 2 }, { 'U', 3 }, { 'l', 2 }, { 'L', 3 }, { 'N', 2 }, { 'n', 3 }, { 'n', 8 }, { 'n', 12 } } )
        full.push_back( o );
    for ( int k = 0; k < 9; k++ )
        full.push_back( { 't', k } );
    for ( int l : { 1, 3, 5, 8 } )
        for ( int k = 0; k < 3; k++ )
            full.push_back( { 'e', l * 4 + k } ), full.push_back( { 'E', l * 4 + k } );
    for ( int l : { 0, 3, 8 } )
        full.push_back( { 'f', l * 4 + l % 3 } ), full.push_back( { 'g', l * 4 + 2 } ), full.push_back( { 'a', l } ), full.push_back( { 'h', l } );
    for ( int k = 0; k < 3; k++ )
        full.push_back( { 'A', k } );
    // Every operation with every argument (for short histories).
    Ops every = full;
    for ( int l = 0; l < 11; l++ )
        for ( int k = 0; k < 3; k++ )
            for ( char op : { '=', '+', 'e', 'E', 'f', 'g' } )
                every.push_back( { op, l * 4 + k } );
    for ( int l = 0; l < 11; l++ )
        every.push_back( { 'a', l } ), every.push_back( { 'h', l } );
    for ( int k = 0; k < 6; k++ )
        every.push_back( { 'i', k } ), every.push_back( { 'I', k } );
    for ( int k = 0; k < 4; k++ )
        every.push_back( { 'u', k } ), every.push_back( { 'U', k } );
    for ( int k = 0; k < 5; k++ )
        every.push_back( { 'l', k } ), every.push_back( { 'L', k } ), every.push_back( { 'N', k } );
    for ( int k = 0; k < 15; k++ )
        every.push_back( { 'n', k } );
    for ( int l : { 0, 2, 3, 5, 8, 10 } )
        small.push_back( { '=', l * 4 } ), small.push_back( { '+', l * 4 } );
    for ( char op : { 'b', 'B', 'p', 'm', 'M', 'd', 'y', 'w', 'z', 'k' } )
        small.push_back( { op, 0 } );
    for ( int k : { 1, 3, 6, 8 } )
        small.push_back( { 't', k } );
    small.push_back( { 'i', 3 } );
    small.push_back( { 'L', 2 } );
    small.push_back( { 'o', 1 } );
    small.push_back( { 'D', 0 } );

    auto explore = [ & ]( const std::string& name, const std::string& caps, const std::vector<int>& pres, const Ops& ops, int depth )
    {
        std::vector<std::string> bases;
        for ( char n : caps )
            for ( int p : pres )
                bases.push_back( std::string( "S" ) + n + char( p ) );
        e.phase( name.c_str(), bases.size() * ops.size(),
                 [ & ]( uint64_t u )
                 {
                     std::function<void( std::string, int )> go = [ & ]( std::string s, int left )
                     {
                         if ( e.stopped() )
                             return;
                         if ( left == 0 )
                         {
                             e.check( s );
                             e.step( uint64_t( depth ) );
                             e.state( before );
                             e.state( after );
                             e.trans( fw::Mix( fw::Mix( before, after ), uint64_t( uint8_t( s[ s.size() - 2 ] ) ) * 256 + uint8_t( s[ s.size() - 1 ] ) ) );
                             return;
                         }
                         for ( auto& o : ops )
                             go( s + o.first + char( o.second ), left - 1 );
                     };
                     auto& o = ops[ u % ops.size() ];
                     go( bases[ u / ops.size() ] + o.first + char( o.second ), depth - 1 );
                 } );
    };
    std::vector<int> all;
    for ( int i = 0; i < 11; i++ )
        for ( int j = 0; j < 11; j++ )
            all.push_back( i + j * 16 );
    auto P = []( int x, int y ) { return x + y * 16; };
    explore( "two operations, all lengths", "0147ohH", all, full, 2 );
    explore( "two operations, all arguments", "01oH", { P( 0, 0 ), P( 2, 3 ), P( 8, 10 ) }, every, 2 );
    explore( "three operations", "0", { P( 0, 0 ), P( 2, 3 ), P( 10, 8 ) }, full, 3 );
    explore( "three operations, fixed capacity", "4oh", { P( 2, 1 ) }, full, 3 );
    explore( "four operations", "0", { P( 0, 0 ), P( 9, 5 ) }, small, 4 );
    if ( th )
    {
        explore( "three operations, all lengths", "0", all, full, 3 );
        explore( "five operations", "0", { P( 0, 0 ), P( 3, 10 ) }, small, 5 );
        explore( "four operations, full", "0o", { P( 2, 8 ) }, full, 4 );
    }
    // Long histories of alternating operations.
    e.phase( "long histories", full.size() * full.size(),
             [ & ]( uint64_t u )
             {
                 auto&       x = full[ u % full.size() ];
                 auto&       y = full[ u / full.size() ];
                 std::string s = std::string( "S0" ) + char( P( 2, 4 ) );
                 // Doubling operations are limited in number.
                 int n = strchr( "dDQpPx", x.first ) || strchr( "dDQpPx", y.first ) ? 3 : th ? 100 : 30;
                 for ( int i = 0; i < n; i++ )
                     s += std::string( 1, x.first ) + char( x.second ) + y.first + char( y.second );
                 e.check( s );
                 e.step( s.size() / 2 );
             } );

    static const int sizes[] = { 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 10000, 16383, 16384, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 100000, 131072, 1000000 };
    const int        every1  = th ? 4000 : 1300;
    e.phase( "lengths", uint64_t( every1 ) + sizeof sizes / sizeof *sizes,
             [ & ]( uint64_t u )
             {
                 int n = int( u ) < every1 ? int( u ) : sizes[ u - uint64_t( every1 ) ];
                 for ( int k : { 0, 1, 2, 15, 16, 17, 31, 33, 62, 63, 64, 65, 100, 127, 128, 255, 256, 999, 1000, 1001, n - 1, n, n + 1 } )
                     for ( char t : std::string( "0123" ) )
                     {
                         if ( k < 0 || ( t != '0' && n > 1100 ) )
                             continue;
                         for ( int swap = 0; swap < 2; swap++ )
                         {
                             std::string c = std::string( "Z" ) + t + std::to_string( swap ? k : n ) + " " + std::to_string( swap ? n : k );
                             e.check( c );
                             e.step( 12 );
                             e.state( fw::HashStr( c ) );
                         }
                     }
             } );

    // Comparisons: all pairs of short strings over bytes around the sign bit, and all pairs of bytes after a common part.
    std::vector<std::string> words{ "" };
    static const char        alpha[] = { 1, '0', 'A', 'a', 0x7F, char( 0x80 ), char( 0xFF ) };
    for ( size_t i = 0; i < words.size(); i++ )
        if ( words[ i ].size() < ( th ? 4 : 3 ) )
            for ( char c : alpha )
                words.push_back( words[ i ] + c );
    e.phase( "comparisons", words.size(),
             [ & ]( uint64_t u )
             {
                 for ( auto& y : words )
                     e.check( std::string( "C" ) + char( words[ u ].size() ) + words[ u ] + y ), e.step();
                 e.state( fw::HashStr( words[ u ] ) );
             } );
    e.phase( "all byte pairs", 255,
             [ & ]( uint64_t u )
             {
                 for ( int y = 1; y < 256; y++ )
                     for ( const char* pre : { "", "x", "\xC3\xA9" } )
                     {
                         std::string p = pre, x = p + char( u + 1 );
                         e.check( std::string( "C" ) + char( x.size() ) + x + p + char( y ) );
                         e.check( std::string( "C" ) + char( x.size() + 1 ) + x + "z" + p + char( y ) + "a" );
                         e.step( 2 );
                     }
             } );
    e.phase( "transformations of all byte pairs", 255,
             [ & ]( uint64_t u )
             {
                 char x = char( u + 1 );
                 for ( int y = 1; y < 256; y++ )
                     for ( int n : { 0, 1, 12, 13, 14, 15, 16, 60, 61, 62, 63, 64 } )
                     {
                         std::string h = std::string( "T" ) + x + char( y );
                         e.check( h + std::string( size_t( n ), n % 2 ? 'n' : 'N' ) + x + char( y ) );
                         if ( n < 2 )
                             e.check( h + char( y ) + x + std::string( size_t( n ), 'z' ) + x );
                         e.step();
                     }
             } );
    // Numbers.
    auto number = [ & ]( int64 v, bool wide )
    {
        std::string c( 8, 0 );
        memcpy( &c[ 0 ], &v, 8 );
        for ( int max = 0; max <= ( wide ? 22 : 13 ); max++ )
            e.check( std::string( "N" ) + ( wide ? 'l' : 'i' ) + char( max ) + c ), e.step();
        if ( wide )
            e.check( "X" + c );
    };
    e.phase( "numbers around zero", 201,
             [ & ]( uint64_t u )
             {
                 for ( int i = 0; i < ( th ? 10000 : 200 ); i++ )
                 {
                     int64 v = ( int64( u ) - 100 ) * ( th ? 10000 : 200 ) + i;
                     number( v, false );
                     number( v, true );
                 }
             } );
    e.phase( "numbers around powers", 64 + 19,
             [ & ]( uint64_t u )
             {
                 uint64 p = 1;
                 for ( uint64_t i = 0; i < ( u < 64 ? u : u - 63 ); i++ )
                     p *= u < 64 ? 2 : 10;
                 for ( int64 d = -12; d <= 12; d++ )
                     for ( int s = 0; s < 2; s++ )
                     {
                         int64 v = int64( ( s ? 0 - p : p ) + uint64( d ) );
                         number( v, true );
                         if ( v == int32( v ) )
                             number( v, false );
                     }
             } );
    e.phase( "numbers of one repeated digit", 9,
             [ & ]( uint64_t u )
             {
                 int64 v = 0;
                 for ( int n = 0; n < 18; n++ )
                 {
                     v = v * 10 + int64( u ) + 1;
                     number( v, true );
                     number( -v, true );
                     if ( n < 9 )
                         number( v, false ), number( -v, false );
                 }
             } );
}

int main( int argc, char** argv )
{
    return fw::Main( argc, argv, Enumerate, Run, Show );
}
