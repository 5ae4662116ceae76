// C06: writing and parsing again gives the same document. C07: the written text is valid, ordered and indented.
#include "fw.h"
#include "types.h"
#include "texts.h"
#include "alloc.h"
#include <cmath>
#include <limits>

using namespace lib;
using ref::Node;

static std::string ReadAll( const char* path )
{
    std::string s;
    int         fd = open( path, O_RDONLY );
    char        b[ 65536 ];
    ssize_t     n;
    while ( fd >= 0 && ( n = read( fd, b, sizeof b ) ) > 0 )
        s.append( b, size_t( n ) );
    if ( fd >= 0 )
        close( fd );
    return s;
}

// Follows the written text along the document: every member, element and closing bracket on a line of its own, indented.
struct Walker
{
    const std::string& t;
    std::string        unit; // one level of indentation
    size_t             p = 0;
    std::string        why;

    Walker( const std::string& text, unsigned len, char c ) : t( text ), unit( len, c ) {}

    bool bad( const char* w )
    {
        if ( why.empty() )
            why = std::string( w ) + " at byte " + std::to_string( p ) + " of the written text";
        return false;
    }
    void blank()
    {
        while ( p < t.size() && ( t[ p ] == ' ' || t[ p ] == '\t' ) )
            p++;
    }
    bool line( int depth )
    {
        if ( p >= t.size() || t[ p ] != '\n' )
            return bad( "no new line" );
        p++;
        for ( int i = 0; i < depth; i++ )
        {
            if ( t.compare( p, unit.size(), unit ) != 0 )
                return bad( "too little indentation" );
            p += unit.size();
        }
        if ( p >= t.size() || strchr( " \t\r\n", t[ p ] ) )
            return bad( "too much indentation" );
        return true;
    }
    size_t scalarEnd()
    {
        size_t q = p;
        if ( q < t.size() && t[ q ] == '"' )
        {
            q++;
            while ( q < t.size() && t[ q ] != '"' )
                q += t[ q ] == '\\' ? 2 : 1;
            return q + 1;
        }
        while ( q < t.size() && !strchr( " \t\r\n,:]}[{", t[ q ] ) )
            q++;
        return q;
    }
    bool scalar( const Node& n )
    {
        size_t q = scalarEnd();
        if ( q > t.size() )
            return bad( "unfinished value" );
        std::string s = t.substr( p, q - p );
        if ( !ref::Judge( s ).ok || !ref::Equal( ref::Build( s ), n, true ) )
            return bad( "another value than the document's" );
        p = q;
        return true;
    }
    bool value( const Node& n, int depth )
    {
        if ( n.k != Node::Arr && n.k != Node::Obj )
            return scalar( n );
        char open = n.k == Node::Arr ? '[' : '{';
        if ( p >= t.size() || t[ p ] != open )
            return bad( "no opening bracket" );
        p++;
        size_t count = n.k == Node::Arr ? n.a.size() : n.o.size();
        for ( size_t i = 0; i < count; i++ )
        {
            if ( !line( depth + 1 ) )
                return false;
            if ( n.k == Node::Obj )
            {
                if ( !scalar( Node::MkStr( n.o[ i ].first ) ) )
                    return false;
                blank();
                if ( p >= t.size() || t[ p ] != ':' )
                    return bad( "no colon" );
                p++;
                blank();
            }
            if ( !value( n.k == Node::Arr ? n.a[ i ] : n.o[ i ].second, depth + 1 ) )
                return false;
            if ( i + 1 < count )
            {
                if ( p >= t.size() || t[ p ] != ',' )
                    return bad( "no comma" );
                p++;
            }
        }
        if ( !line( depth ) )
            return false;
        if ( t[ p ] != ( n.k == Node::Arr ? ']' : '}' ) )
            return bad( "no closing bracket" );
        p++;
        return true;
    }
    bool all( const Node& n )
    {
        if ( !value( n, 0 ) )
            return false;
        while ( p < t.size() && strchr( " \t\r\n", t[ p ] ) )
            p++;
        return p == t.size() || bad( "something follows the document" );
    }
};

// Text of a large document: kind and size.
static std::string Large( const std::string& c )
{
    const size_t n = size_t( atoll( c.c_str() + 1 ) );
    std::string  s( n, 'y' );
    for ( size_t i = 0; i < n; i++ )
        s[ i ] = char( 'a' + i * 7 % 26 );
    switch ( c[ 0 ] )
    {
    case 's': return "\"" + s + "\"";
    case 'n': return "[\"\\t" + s + "\\n\",{\"" + s + "\":\"\\\"" + s.substr( 1 ) + "\\u001fz\"}]";
    case 'q':
        s = "\"";
        for ( size_t i = 0; i < n; i++ )
            s += i % 5 ? "\\n" : "\xC3\xA9";
        return s + "\"";
    case 'a':
        s = "[";
        for ( size_t i = 0; i < n; i++ )
            s += ( i ? "," : "" ) + ( i % 3 ? std::to_string( i ) : std::string( i % 2 ? "true" : "false" ) );
        return s + "]";
    }
    s = "{";
    for ( size_t i = 0; i < n; i++ )
        s += ( i ? ",\"k" : "\"k" ) + std::to_string( i * 7919 % 1000003 ) + "\":" + std::to_string( i );
    return s + "}";
}

// Case: indentation length | indentation character code | 'P', 'L' (a large document) or type index | text
static std::string Case( unsigned len, char c, const std::string& route, const std::string& text )
{
    return std::to_string( len ) + "|" + std::to_string( int( c ) ) + "|" + route + "|" + text;
}

static bool Run( const std::string& c, std::string& why )
{
    size_t      p1 = c.find( '|' ), p2 = c.find( '|', p1 + 1 ), p3 = c.find( '|', p2 + 1 );
    unsigned    len   = unsigned( atol( c.c_str() ) );
    char        ch    = char( atoi( c.c_str() + p1 + 1 ) );
    std::string route = c.substr( p2 + 1, p3 - p2 - 1 ), text = c.substr( p3 + 1 );
    if ( route == "L" )
    {
        text  = Large( text );
        route = "P";
    }

    StructuredData sd;
    Node           doc;
    bool           expressible = true;
    if ( route == "P" || route == "I" )
    {
        if ( Parse( sd, text ).status != Status::kOk )
        {
            why = "the document does not parse";
            return false;
        }
        doc         = ref::Build( text );
        expressible = route == "P";
    }
    else if ( route == "N" )
    {
        double v    = text == "nan" ? std::numeric_limits<double>::quiet_NaN() : text == "inf" ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
        expressible = false;
        Array<double> a;
        a.AppendArrayElement( 1 );
        a.AppendArrayElement( v );
        sd.SerializeFrom( a );
    }
    else
    {
        const T::Entry& e = T::Family().at( size_t( atoi( route.c_str() ) ) );
        doc               = ref::Build( text );
        if ( e.serialize( sd, doc ) != Status::kOk )
        {
            why = "serialization fails";
            return false;
        }
    }
    char path[ 64 ];
    snprintf( path, sizeof path, "d%d.json", getpid() );
    Status s = len == 2 && ch == ' ' ? sd.Write( path ) : sd.Write( path, len, ch );
    if ( !expressible )
    {
        if ( s == Status::kOk )
            why = "a number that JSON cannot express is written as " + ReadAll( path );
        return s != Status::kOk;
    }
    if ( s != Status::kOk )
    {
        why = "writing fails: " + StatusName( s );
        return false;
    }
    std::string out = ReadAll( path );
#if PROP == 6
    StructuredData sd2;
    ParseResult    r = out.size() <= 65534 ? sd2.Parse( path ) : Parse( sd2, out );
    if ( r.status != Status::kOk )
    {
        why = "the written file does not parse: " + StatusName( r.status ) + ": " + fw::Show( out );
        return false;
    }
    std::string problem;
    Node        t = Tree( sd2.GetRootJsonValue(), &problem );
    if ( !ref::Equal( doc, t, false ) )
    {
        why = "the written file parses as " + fw::Show( ref::Text( t ) ) + " " + problem;
        return false;
    }
    // The order of members is part of the document: writing the second document gives the same bytes.
    s                = sd2.Write( path, len, ch );
    std::string out2 = ReadAll( path );
    if ( s != Status::kOk || out2 != out )
    {
        why = "written again, the document is " + StatusName( s ) + " " + fw::Show( out2 ) + " instead of " + fw::Show( out );
        return false;
    }
#else
    if ( !ref::Judge( out ).ok || !ref::Equal( doc, ref::Build( out ), true ) )
    {
        why = "the written text is not the document: " + fw::Show( out );
        return false;
    }
    Walker w( out, len, ch );
    if ( !w.all( doc ) )
    {
        why = w.why + ": " + fw::Show( out );
        return false;
    }
#endif
    return true;
}

static std::string Show( const std::string& c )
{
    size_t p1 = c.find( '|' ), p2 = c.find( '|', p1 + 1 ), p3 = c.find( '|', p2 + 1 );
    return "indentation " + c.substr( 0, p1 ) + " of character " + c.substr( p1 + 1, p2 - p1 - 1 ) + ", " + c.substr( p2 + 1, p3 - p2 - 1 ) + ": " + fw::Show( c.substr( p3 + 1 ) );
}

static const char kSpaces[] = { ' ', '\t', '\n', '\r' };

static std::string Utf8( uint32_t c )
{
    std::string s;
    ref::PutUtf8( s, c );
    return s;
}

static void Enumerate( fw::Engine& e )
{
    auto doc = [ & ]( const std::string& text, unsigned len = 2, char c = ' ', const std::string& route = "P" )
    {
        e.state( fw::HashStr( text ) );
        e.trans( fw::Mix( fw::HashStr( text ), len * 256 + (unsigned char)c ) );
        e.check( Case( len, c, route, text ) );
        e.step( 4 );
    };
    // Phase 1: every document tree.
    for ( int n = 1; n <= ( e.thorough ? 7 : 6 ); n++ )
    {
        const std::vector<Node>& t = texts::Trees( n );
        e.phase( ( "trees of " + std::to_string( n ) ).c_str(), ( t.size() + 63 ) / 64,
                 [ & ]( uint64_t u )
                 {
                     for ( size_t i = u * 64; i < t.size() && i < ( u + 1 ) * 64; i++ )
                     {
                         std::string x = ref::Text( t[ i ] );
                         doc( x );
                         if ( n <= 4 || i % 7 == 0 )
                         {
                             doc( x, 0 );
                             doc( x, 1, '\t' );
                             doc( x, 3, '\r' );
                         }
                     }
                 } );
    }
    // Phase 2: every indentation.
    static const std::vector<unsigned> lens = []
    {
        std::vector<unsigned> v;
        for ( unsigned i = 0; i <= 70; i++ )
            v.push_back( i );
        for ( unsigned i : { 100u, 127u, 128u, 129u, 200u, 254u, 255u, 256u, 257u, 511u, 512u, 513u, 1000u, 1023u, 1024u, 1025u, 4096u, 10000u } )
            v.push_back( i );
        return v;
    }();
    e.phase( "indentations", lens.size() * 4,
             [ & ]( uint64_t u )
             {
                 for ( auto& d : texts::Documents() )
                     doc( d, lens[ u / 4 ], kSpaces[ u % 4 ] );
                 doc( "[[[[[[[[[[1]]]],{\"a\":[]}]]]]],2]", lens[ u / 4 ], kSpaces[ u % 4 ] );
                 doc( "{\"a\":{\"b\":{\"c\":{},\"d\":[]},\"e\":1},\"f\":[[],[[]]]}", lens[ u / 4 ], kSpaces[ u % 4 ] );
             } );
    // Phase 3: every code point as a string and within a name.
    e.phase( "every code point", 0x1100,
             [ & ]( uint64_t u )
             {
                 Node     a = Node::MkArr(), o = Node::MkObj();
                 for ( uint32_t c = uint32_t( u ) * 256; c < ( uint32_t( u ) + 1 ) * 256; c++ )
                 {
                     if ( c == 0 || ( c >= 0xD800 && c <= 0xDFFF ) )
                         continue;
                     a.a.push_back( Node::MkStr( Utf8( c ) + "x" ) );
                     o.set( "n" + Utf8( c ), Node::MkStr( Utf8( c ) ) );
                 }
                 if ( a.a.empty() )
                     return;
                 doc( ref::Text( a ) );
                 doc( ref::Text( o ) );
             } );
    // Phase 4: every sequence of special characters.
    static const std::vector<std::string> sp = { "\"", "\\", "/", "\b", "\f", "\n", "\r", "\t", "\x01", "\x1f", "\x7f", "a", "u", "0", "\xC3\xA9", "\xE2\x80\xA8", "\xF0\x9D\x84\x9E", " ", "," };
    int                                   L  = e.thorough ? 4 : 3;
    e.phase( "special characters", sp.size() * sp.size(),
             [ & ]( uint64_t u )
             {
                 Node                               a = Node::MkArr(), o = Node::MkObj();
                 auto                               flush = [ & ]()
                 {
                     doc( ref::Text( a ), 1 );
                     doc( ref::Text( o ), 1 );
                     a = Node::MkArr();
                     o = Node::MkObj();
                 };
                 std::function<void( std::string, int )> go = [ & ]( std::string s, int n )
                 {
                     a.a.push_back( Node::MkStr( s ) );
                     o.set( s, Node::MkStr( s ) );
                     if ( a.a.size() >= 100 )
                         flush();
                     if ( n < L )
                         for ( auto& x : sp )
                             go( s + x, n + 1 );
                 };
                 if ( u == 0 )
                     for ( auto& x : sp )
                         go( x, L );
                 go( sp[ u / sp.size() ] + sp[ u % sp.size() ], 2 );
                 flush();
             } );
    // Phase 5: sizes.
    e.phase( "string lengths", e.thorough ? 3000 : 700,
             [ & ]( uint64_t u )
             {
                 std::string s( u, 'y' );
                 doc( "\"" + s + "\"" );
                 doc( "[\"" + s + "\\n\",{\"" + s + "\":\"\\\"" + s + "\"}]", 3 );
                 if ( u && u < 300 )
                 {
                     std::string q;
                     for ( uint64_t i = 0; i < u; i++ )
                         q += i % 3 ? "\\\"" : "\\u0001";
                     doc( "{\"" + q + "\":\"" + q + "\"}" );
                 }
             } );
    // Sizes around powers of two and of ten, up to a million bytes; runs without and with characters to escape, in strings and names.
    static const std::vector<uint64_t> large = []
    {
        std::vector<uint64_t> v;
        for ( uint64_t i = 1024; i <= 1 << 20; i *= 2 )
            for ( int k = -2; k <= 2; k++ )
                v.push_back( i + uint64_t( k ) );
        for ( uint64_t i : { 999, 1000, 1001, 9999, 10000, 10001, 70000, 99999, 100000, 200000 } )
            v.push_back( i );
        return v;
    }();
    e.phase( "large strings", large.size(),
             [ & ]( uint64_t u )
             {
                 const std::string n = std::to_string( large[ u ] );
                 doc( "s" + n, 2, ' ', "L" );
                 doc( "n" + n, 3, ' ', "L" );
                 doc( "q" + n, 0, ' ', "L" );
             } );
    e.phase( "many elements and members", large.size(),
             [ & ]( uint64_t u )
             {
                 if ( large[ u ] > ( e.thorough ? 200000U : 70000U ) )
                     return;
                 const std::string n = std::to_string( large[ u ] );
                 doc( "a" + n, 2, ' ', "L" );
                 doc( "o" + n, 1, '\t', "L" );
             } );
    e.phase( "element counts", e.thorough ? 600 : 150,
             [ & ]( uint64_t u )
             {
                 Node a = Node::MkArr(), o = Node::MkObj(), r = Node::MkObj();
                 for ( uint64_t i = 0; i < u; i++ )
                 {
                     a.a.push_back( Node::MkNum( double( i ) ) );
                     o.set( "k" + std::to_string( i ), Node::MkNum( double( i ) ) );
                     r.set( "k" + std::to_string( ( i * 7919 + 13 ) % 10007 ), Node::MkBool( i & 1 ) );
                 }
                 doc( ref::Text( a ) );
                 doc( ref::Text( o ) );
                 doc( ref::Text( r ), 0 );
                 std::reverse( o.o.begin(), o.o.end() );
                 doc( ref::Text( o ), 1, '\t' );
             } );
    e.phase( "depths", e.thorough ? 1024 : 200,
             [ & ]( uint64_t u )
             {
                 size_t d = size_t( u ) + 1;
                 if ( !e.thorough && u >= 150 )
                     d = 1024 - ( u - 150 ) * 17;
                 doc( texts::Repeat( "[", d ) + texts::Repeat( "]", d ), d < 150 ? 2 : 0 );
                 doc( texts::Repeat( "{\"a\":", d ) + "1" + texts::Repeat( "}", d ), d < 150 ? 1 : 0, '\t' );
                 doc( texts::Repeat( "[{\"b\":1,\"a\":", ( d - 1 ) / 2 ) + "[]" + texts::Repeat( "},2]", ( d - 1 ) / 2 ), d < 100 ? 3 : 0 );
             } );
    // Phase 6: every order of members.
    int P = e.thorough ? 7 : 6;
    e.phase( "member orders", uint64_t( P ) * uint64_t( P - 1 ),
             [ & ]( uint64_t u )
             {
                 static const char* nm[] = { "b", "a", "ab", "", "B", "\xC3\xA9", "aa" };
                 std::vector<int>   perm = { int( u / uint64_t( P - 1 ) ) };
                 int                second = int( u % uint64_t( P - 1 ) );
                 perm.push_back( second + ( second >= perm[ 0 ] ) );
                 std::function<void()> go = [ & ]()
                 {
                     std::string t = "{";
                     for ( size_t i = 0; i < perm.size(); i++ )
                         t += ( i ? ",\"" : "\"" ) + std::string( nm[ perm[ i ] ] ) + "\":" + std::to_string( i );
                     doc( t + "}" );
                     // with repetitions of earlier names
                     doc( t + ",\"" + nm[ perm[ 0 ] ] + "\":{\"z\":1}}" );
                     doc( t + ",\"" + nm[ perm.back() ] + "\":[0],\"zz\":1}" );
                     for ( int k = 0; k < P; k++ )
                         if ( std::find( perm.begin(), perm.end(), k ) == perm.end() )
                         {
                             perm.push_back( k );
                             go();
                             perm.pop_back();
                         }
                 };
                 go();
             } );
    // Phase 7: numbers.
    e.phase( "numbers", 2048 + 700,
             [ & ]( uint64_t u )
             {
                 Node a = Node::MkArr();
                 if ( u < 2048 )
                     for ( int sign = 0; sign < 2; sign++ )
                         for ( uint64_t m : { 0ULL, 1ULL, 2ULL, 3ULL, 0xFFFFFFFFFFFFFULL, 0xFFFFFFFFFFFFEULL, 0x8000000000000ULL, 0x5555555555555ULL, 0x999999999999AULL, 0x7FFFFFFFFFFFFULL } )
                         {
                             uint64_t bits = uint64_t( sign ) << 63 | u << 52 | m;
                             double   d;
                             memcpy( &d, &bits, 8 );
                             if ( std::isfinite( d ) )
                                 a.a.push_back( Node::MkNum( d ) );
                         }
                 else
                     for ( int k = 0; k < 20; k++ )
                     {
                         int    x = int( u - 2048 ) - 350;
                         double d = k < 10 ? x + k * 0.1 : strtod( ( std::to_string( k ) + "e" + std::to_string( x > 290 ? x - 300 : x ) ).c_str(), nullptr );
                         a.a.push_back( Node::MkNum( d ) );
                     }
                 if ( a.a.empty() )
                     return;
                 doc( ref::Text( a ) );
                 Node o = Node::MkObj();
                 o.set( "x", a.a[ 0 ] );
                 o.set( "y", a.a.back() );
                 doc( ref::Text( o ) );
                 doc( ref::Text( a.a[ 0 ] ) );
             } );
#if PROP == 6
    e.phase( "numbers JSON cannot express", 8,
             [ & ]( uint64_t u )
             {
                 static const char* t[] = { "1e999", "[-1e999]", "{\"a\":[1,{\"b\":1e400}]}", "[1,2,3,9e99999]", "-2e308" };
                 if ( u < 5 )
                     e.check( Case( 2, ' ', "I", t[ u ] ) );
                 else
                     e.check( Case( 2, ' ', "N", u == 5 ? "nan" : u == 6 ? "inf" : "-inf" ) );
             } );
#endif
    // Phase 8: documents built by serialization.
    const auto& fam = T::Family();
    for ( size_t i = 0; i < fam.size(); i++ )
    {
        if ( !fam[ i ].writable )
            continue;
        std::vector<Node> v = T::Values( fam[ i ], e.thorough ? 2 : 1 );
        e.phase( ( "serialized " + fam[ i ].name ).c_str(), v.size() + 20,
                 [ & ]( uint64_t u )
                 {
                     std::string t = ref::Text( u < v.size() ? v[ u ] : fam[ i ].grow( int( u - v.size() ), 0 ) );
                     doc( t, 2, ' ', std::to_string( i ) );
                     doc( t, unsigned( u % 5 ), kSpaces[ u % 4 ], std::to_string( i ) );
                 } );
    }
}

int main( int argc, char** argv )
{
    return fw::Main( argc, argv, Enumerate, Run, Show );
}
