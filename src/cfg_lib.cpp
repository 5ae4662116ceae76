// C23: what one build of the library does with a case. Compiled, with the library, once per build configuration into a
// shared object of which only cfg_run is visible.
#include "types.h"
#include <unistd.h>

using namespace lib;
using ref::Node;

static void Num( std::string& o, long long x )
{
    o += std::to_string( x );
    o += ',';
}
static std::string Slurp( const char* f )
{
    std::string s;
    if ( FILE* h = fopen( f, "rb" ) )
    {
        char   b[ 65536 ];
        size_t n;
        while ( ( n = fread( b, 1, sizeof b, h ) ) > 0 )
            s.append( b, n );
        fclose( h );
    }
    return s;
}
static void Written( StructuredData& d, std::string& o, int indent, char c )
{
    char path[ 64 ];
    snprintf( path, sizeof path, "c%d.json", int( getpid() ) );
    Status s = d.Write( path, uint32( indent ), c );
    Num( o, int( s ) );
    if ( s == Status::kOk )
        o += Slurp( path );
    o += '\n';
}
static void Parsed( StructuredData& d, const std::string& text, std::string& o )
{
    ParseResult r = Parse( d, text );
    Num( o, int( r.status ) );
    Num( o, r.errorLine );
    Num( o, r.errorColumn );
    if ( r.status != Status::kOk )
    {
        String<256> t = ParseResultToString( r );
        o += static_cast<const char*>( t );
    }
    o += '\n';
    if ( const Value* v = static_cast<const StructuredData&>( d ).GetRootJsonValue() )
    {
        std::string p;
        o += ref::Text( Tree( v, &p ) ) + p;
    }
    o += '\n';
}

// Text of exactly this size at the end of a block, so that every build sees the same beyond it.
struct Block
{
    char* p;
    Block( const std::string& s ) : p( new char[ s.size() + 9 ] )
    {
        memset( p, 0, s.size() + 9 );
        memcpy( p, s.data(), s.size() );
    }
    ~Block()
    {
        delete[] p;
    }
};

template <class S>
static void Str( std::string& o, const S& s )
{
    Num( o, s.GetStringLength() );
    o += static_cast<const char*>( s );
    o += '|';
}

static void Texts( const std::string& s1, const std::string& s2, std::string& o )
{
    using namespace Terathon::Text;
    Block       a( s1 ), b( s2 );
    const char *p = a.p, *q = b.p;
    Num( o, GetTextLength( p ) );
    Num( o, Hash( p ) );
    Num( o, ValidateUnicodeChar( p ) );
    uint32 code = 77;
    Num( o, ReadUnicodeChar( p, &code ) );
    Num( o, code );
    Num( o, GetUnicodeCharCount( p ) );
    for ( int m = 0; m <= int( s1.size() ); m++ )
    {
        Num( o, GetUnicodeCharCount( p, m ) );
        Num( o, GetPreviousUnicodeCharByteCount( p + m, m ) );
        Num( o, GetNextUnicodeCharByteCount( p, m ) );
        Num( o, GetUnicodeCharStringByteCount( p, m ) );
    }
    uint16 w[ 64 ] = {};
    Num( o, GetWideTextCharCount( p ) );
    ConvertStringToWideText( p, w, 60 );
    for ( int i = 0; i < 20; i++ )
        Num( o, w[ i ] );
    char back[ 128 ] = {};
    ConvertWideTextToString( w, back, 120 );
    o += back;
    Num( o, GetUnicodeStringLength( w ) );
    Num( o, CompareText( p, q ) );
    Num( o, CompareTextCaseless( p, q ) );
    Num( o, CompareTextLessThan( p, q ) );
    Num( o, CompareTextLessEqual( p, q ) );
    Num( o, CompareTextLessThanCaseless( p, q ) );
    Num( o, CompareTextLessEqualCaseless( p, q ) );
    Num( o, CompareNumberedTextLessThan( p, q ) );
    Num( o, CompareNumberedTextLessThanCaseless( p, q ) );
    for ( int m = 0; m <= 3; m++ )
    {
        Num( o, CompareText( p, q, m ) );
        Num( o, CompareTextCaseless( p, q, m ) );
        Num( o, CompareTextLessThan( p, q, m ) );
        Num( o, CompareTextLessEqual( p, q, m ) );
    }
    Num( o, FindText( p, q ) );
    Num( o, FindTextCaseless( p, q ) );
    for ( const char* c = q; *c; c++ )
    {
        Num( o, FindChar( p, (unsigned char)*c ) );
        Num( o, FindUnquotedChar( p, (unsigned char)*c ) );
        Num( o, CountChars( p, (unsigned char)*c, int( s1.size() ) ) );
    }
    const String<> x( p ), y( q );
    String<24> z( p );
    Num( o, x == y );
    Num( o, x < y );
    Num( o, x <= y );
    Num( o, x > y );
    Str( o, x + y );
    z += y;
    Str( o, z );
    String<> t( x );
    t.EncodeEscapeSequences();
    Str( o, t );
    // As names of members.
    ObjectMap<double> m;
    for ( const char* n : { p, q, "k" } )
    {
        auto* e = new ObjectMapElement<double>;
        e->name = n;
        if ( !m.InsertMapElement( e ) )
            delete e;
    }
    for ( auto* e : m )
        Str( o, e->name );
}

extern "C" __attribute__( ( visibility( "default" ) ) ) bool cfg_run( const char* c, size_t n, std::string* out )
{
    std::string& o = *out;
    std::string  s( c + 1, n - 1 );
    switch ( c[ 0 ] )
    {
        case 'P': // parse
        {
            StructuredData d;
            Parsed( d, s, o );
            return true;
        }
        case 'W': // parse and write
        {
            StructuredData d;
            Parsed( d, s, o );
            Written( d, o, 2, ' ' );
            Written( d, o, 1, '\t' );
            return true;
        }
        case 'T': // type, document
        {
            size_t k = size_t( (unsigned char)s[ 0 ] );
            if ( k >= T::Family().size() )
                return false;
            const T::Entry& e = T::Family()[ k ];
            StructuredData  d;
            Parsed( d, s.substr( 1 ), o );
            if ( !d.GetRootJsonValue() )
                return true;
            Node   after;
            Node   def = e.def();
            Status st  = e.validate( d, def, after );
            Num( o, int( st ) );
            st = e.deserialize( d, def, after );
            Num( o, int( st ) );
            if ( st != Status::kOk || !e.writable )
                return true;
            o += ref::Text( after );
            StructuredData d2;
            Num( o, int( e.serialize( d2, after ) ) );
            o += ref::Text( Tree( static_cast<const StructuredData&>( d2 ).GetRootJsonValue() ) );
            if ( s.size() % 8 == 0 )
                Written( d2, o, 3, ' ' );
            return true;
        }
        case 'B': // two texts, the first preceded by its length
        {
            size_t l = size_t( (unsigned char)s[ 0 ] );
            Texts( s.substr( 1, l ), s.substr( 1 + l ), o );
            return true;
        }
        case 'N': // doubles, eight bytes each
        {
            Array<double> a;
            for ( size_t i = 0; i + 8 <= s.size(); i += 8 )
            {
                double x;
                memcpy( &x, s.data() + i, 8 );
                a.AppendArrayElement( x );
            }
            StructuredData d;
            Num( o, int( d.SerializeFrom( a ) ) );
            Written( d, o, 0, ' ' );
            return true;
        }
        case 'I': // an integer, eight bytes
        {
            int64 x;
            memcpy( &x, s.data(), 8 );
            Str( o, String<>( x ) );
            Str( o, String<>( int32( x ) ) );
            Str( o, String<>( uint32( x ) ) );
            Str( o, String<20>( x ) );
            Str( o, Terathon::Text::IntegerToHexString8( uint32( x ) ) );
            String<> t( "n" );
            t += int32( x );
            t += x;
            Str( o, t );
            char b[ 40 ] = {};
            for ( int m = 0; m < 24; m += 3 )
                Num( o, Terathon::Text::Integer64ToString( x, b, m ) );
            memset( b, 0, sizeof b );
            Num( o, Terathon::Text::WriteUnicodeChar( b, uint32( x ) ) );
            o += b;
            Num( o, Terathon::Text::GetUnicodeCharByteCount( uint32( x ) ) );
            return true;
        }
        case 'E': // a status
        {
            String<256> t = StatusToString( Status( s[ 0 ] ) );
            Str( o, t );
            for ( int l : { 0, 1, 9, 100, 2147483647 } )
            {
                ParseResult r;
                r.status      = Status( s[ 0 ] );
                r.errorLine   = l;
                r.errorColumn = l / 2;
                Str( o, ParseResultToString( r ) );
            }
            o += GetVersion();
            return true;
        }
    }
    return false;
}
