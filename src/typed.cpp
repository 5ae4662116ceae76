// C10 (deserialization), C11 (validation), C12 (serialization round trip) over a family of described types.
#include "fw.h"
#include "types.h"
#include "alloc.h"
#include <algorithm>
#include <functional>

using namespace lib;
using ref::Node;

static std::string ReadAll( const char* path )
{
    std::string s;
    if ( FILE* f = fopen( path, "rb" ) )
    {
        char   b[ 65536 ];
        size_t n;
        while ( ( n = fread( b, 1, sizeof b, f ) ) > 0 )
            s.append( b, n );
        fclose( f );
    }
    return s;
}

static std::string Names( const T::Faults& f )
{
    std::string s;
    for ( Status x : f )
        s += ( s.empty() ? "" : " or " ) + StatusName( x );
    return s.empty() ? "Ok" : s;
}

// Case: type index, '|', previous value as JSON text, '|', document (C10, C11) -- the previous value is given by its
// length first, so that it may contain anything.
static std::string Case( size_t type, const std::string& prev, const std::string& doc )
{
    return std::to_string( type ) + "|" + std::to_string( prev.size() ) + "|" + prev + "|" + doc;
}

static bool Run( const std::string& c, std::string& why )
{
    size_t          p1 = c.find( '|' ), p2 = c.find( '|', p1 + 1 );
    const T::Entry& e   = T::Family().at( size_t( atoi( c.c_str() ) ) );
    size_t          n   = size_t( atoi( c.c_str() + p1 + 1 ) );
    std::string     pt  = c.substr( p2 + 1, n ), dt = c.substr( p2 + 1 + n + 1 );
    Node            prev = ref::Build( pt );
#if PROP == 12
    {
        const Node&    v = prev;
        StructuredData sd;
        Status         s = e.serialize( sd, v );
        if ( s != Status::kOk )
        {
            why = "serialization fails: " + StatusName( s );
            return false;
        }
        std::string problem;
        Node        doc = Tree( sd.GetRootJsonValue(), &problem );
        if ( !ref::Equal( v, doc, false ) )
        {
            why = "serialized document " + ref::Text( doc ) + " " + problem + " is not the value";
            return false;
        }
        Node back;
        s = e.deserialize( sd, e.def(), back );
        if ( s != Status::kOk || !ref::Equal( v, back, true ) )
        {
            why = "deserialized directly: " + StatusName( s ) + ", " + ref::Text( back );
            return false;
        }
        char path[ 64 ];
        snprintf( path, sizeof path, "t%d.json", getpid() );
        s = sd.Write( path );
        if ( s != Status::kOk )
        {
            why = "writing fails: " + StatusName( s );
            return false;
        }
        std::string text = ReadAll( path );
        if ( !ref::Judge( text ).ok || !ref::Equal( v, ref::Build( text ), true ) )
        {
            why = "written document is not the value in the order of the description: " + text;
            return false;
        }
        StructuredData sd2;
        ParseResult    r = text.size() <= 65534 ? sd2.Parse( path ) : Parse( sd2, text );
        if ( r.status != Status::kOk )
        {
            why = "parsing the written file fails: " + StatusName( r.status );
            return false;
        }
        s = e.deserialize( sd2, e.def(), back );
        if ( s != Status::kOk || !ref::Equal( v, back, true ) )
        {
            why = "deserialized by way of a file: " + StatusName( s ) + ", " + ref::Text( back );
            return false;
        }
        // Serialized into values that exist: one of another kind is refused and stays, the elements of one of the same
        // kind are replaced.
        for ( const char* t : { "null", "true", "1.5", "\"s\"", "[[],{\"a\":1}]", "{\"a\":[1],\"zz\":{}}" } )
        {
            Node was = ref::Build( t );
            if ( e.described && ( was.k == Node::Arr || was.k == Node::Obj ) )
                continue; // its members are added
            StructuredData sd3;
            Parse( sd3, t );
            s   = e.into( sd3.GetRootJsonValue(), v );
            doc = Tree( sd3.GetRootJsonValue(), &problem );
            if ( s != ( was.k == v.k ? Status::kOk : Status::kInvalidValueType ) || !ref::Equal( doc, was.k == v.k ? v : was, false ) )
            {
                why = std::string( "serialized into " ) + t + ": " + StatusName( s ) + ", " + ref::Text( doc ) + " " + problem;
                return false;
            }
        }
        if ( !dt.empty() )
        {
            StructuredData sd3;
            Node           first = ref::Build( dt );
            s                    = e.serialize( sd3, first );
            if ( s == Status::kOk )
                s = e.into( sd3.GetRootJsonValue(), v );
            doc = Tree( sd3.GetRootJsonValue(), &problem );
            if ( s == Status::kOk )
                s = sd3.Write( path );
            text = ReadAll( path );
            if ( s != Status::kOk || !ref::Equal( v, doc, false ) || !ref::Judge( text ).ok || !ref::Equal( v, ref::Build( text ), true ) )
            {
                why = "serialized into a value holding " + dt + ": " + StatusName( s ) + ", " + ref::Text( doc ) + " " + problem + ", written " + text;
                return false;
            }
        }
        // Serializing over an existing document gives the same.
        s   = e.serialize( sd2, v );
        doc = Tree( sd2.GetRootJsonValue(), &problem );
        if ( s != Status::kOk || !ref::Equal( v, doc, false ) )
        {
            why = "serialized again: " + StatusName( s ) + ", " + ref::Text( doc );
            return false;
        }
        return true;
    }
#else
    Node           doc = ref::Build( dt );
    StructuredData sd;
    ParseResult    r = Parse( sd, dt );
    if ( r.status != Status::kOk )
    {
        why = "document does not parse: " + dt;
        return false;
    }
    T::Faults f;
    e.faults( doc, f );
    Node   after;
#    if PROP == 10
    Status s = e.deserialize( sd, prev, after );
    if ( f.empty() ? s != Status::kOk : !f.count( s ) )
    {
        why = "status \"" + StatusName( s ) + "\", expected " + Names( f );
        return false;
    }
    // A scalar without a value of its kind keeps what it had.
    auto scalar = []( const Node& n ) { return n.k == Node::Bool || n.k == Node::Num || n.k == Node::Str; };
    if ( scalar( prev ) && doc.k != prev.k && !ref::Equal( prev, after, true ) )
    {
        why = "the value became " + ref::Text( after ) + " although the document has none of its kind";
        return false;
    }
    if ( e.described && prev.k == Node::Obj && after.k == Node::Obj )
        for ( auto& p : prev.o )
        {
            const Node* d = doc.k == Node::Obj ? doc.get( p.first ) : nullptr;
            const Node* a = after.get( p.first );
            if ( scalar( p.second ) && ( !d || d->k != p.second.k ) && ( !a || !ref::Equal( p.second, *a, true ) ) )
            {
                why = "member \"" + p.first + "\" became " + ( a ? ref::Text( *a ) : "-" ) + " although the document has no value of its kind for it";
                return false;
            }
        }
    if ( f.empty() )
    {
        Node want = e.apply( doc, prev );
        if ( !ref::Equal( want, after, true ) )
        {
            why = "the value is " + ref::Text( after ) + ", expected " + ref::Text( want );
            return false;
        }
    }
#    else
    Node   after2;
    Status s = e.validate( sd, prev, after );
    Node   tree = Tree( sd.GetRootJsonValue() );
    if ( !ref::Equal( prev, after, true ) )
    {
        why = "validation changed the value to " + ref::Text( after );
        return false;
    }
    if ( !ref::Equal( doc, tree, false ) )
    {
        why = "validation changed the document to " + ref::Text( tree );
        return false;
    }
    Status d = e.deserialize( sd, prev, after2 );
    if ( s != d )
    {
        why = "validation says \"" + StatusName( s ) + "\", deserialization \"" + StatusName( d ) + "\"";
        return false;
    }
#    endif
    return true;
#endif
}

static std::string Show( const std::string& c )
{
    size_t p1 = c.find( '|' ), p2 = c.find( '|', p1 + 1 );
    size_t i  = size_t( atoi( c.c_str() ) );
    size_t n  = size_t( atoi( c.c_str() + p1 + 1 ) );
    return ( i < T::Family().size() ? T::Family()[ i ].name : "?" ) + ( PROP == 12 ? " value " : " holding " ) + fw::Show( c.substr( p2 + 1, n ) ) +
           ( PROP == 12 ? "" : " document " + fw::Show( c.substr( p2 + 1 + n + 1 ) ) );
}

// The document with an element of another kind at the end and in the middle of each of its arrays and objects.
static void Spoil( Node& whole, Node& n, int values, const std::function<void( const Node& )>& f )
{
    const size_t size = n.a.size() + n.o.size();
    for ( size_t k = 0; k < n.a.size() && k < 2; k++ )
        Spoil( whole, n.a[ k ], values, f );
    for ( size_t k = 0; k < n.o.size() && k < 4; k++ )
        Spoil( whole, n.o[ k ].second, values, f );
    if ( size < 2 )
        return;
    for ( size_t at : { size - 1, size / 2 } )
        for ( int v = 0; v < values; v++ )
        {
            Node&      m   = n.a.empty() ? n.o[ at ].second : n.a[ at ];
            const Node was = m;
            m              = v == 0 ? Node::MkStr( "s" ) : v == 1 ? Node::MkNull() : v == 2 ? Node::MkArr() : Node::MkNum( 5 );
            f( whole );
            m = was;
        }
}

static void Enumerate( fw::Engine& e )
{
    const auto& fam = T::Family();
    int         b   = e.thorough ? 3 : 2;
    static std::vector<std::vector<Node>> docs;
    for ( size_t i = 0; i < fam.size(); i++ )
    {
        if ( PROP == 12 && !fam[ i ].writable )
            continue;
        // The enumeration is computed per worker; units are slices of it.
        std::vector<Node> d, v = T::Values( fam[ i ], PROP == 12 ? b : 1 );
        if ( PROP != 12 )
            d = fam[ i ].docs( b );
        std::string name = fam[ i ].name;
        e.phase( ( name + " by size" ).c_str(), e.thorough ? 300 : 80,
                 [ & ]( uint64_t u )
                 {
                     Node        g = fam[ i ].grow( int( u ), 0 );
                     std::string t = ref::Text( g );
                     e.state( fw::HashStr( t, i + 1 ) );
                     if ( PROP != 12 )
                     {
                         Node h = g;
                         Spoil( h, h, u <= 12 || e.thorough ? 4 : 2,
                                [ & ]( const Node& n )
                                {
                                    std::string bad = ref::Text( n );
                                    e.state( fw::HashStr( bad, i + 1 ) );
                                    e.check( Case( i, ref::Text( fam[ i ].def() ), bad ) );
                                    e.step( 3 );
                                } );
                     }
                     for ( int k : { 0, 1, 5, 17, 33 } )
                     {
                         std::string p = PROP == 12 ? t : ref::Text( fam[ i ].grow( k, 0 ) );
                         e.trans( fw::Mix( fw::HashStr( t, i + 1001 ), fw::HashStr( p ) ) );
                         e.check( Case( i, p, PROP == 12 ? "" : t ) );
                         e.step( 3 );
                         // a map that holds other values under the same names
                         if ( PROP != 12 && !fam[ i ].described && g.k == Node::Obj && k > 1 )
                         {
                             Node h = fam[ i ].grow( k, 0 ), v = fam[ i ].grow( k + 1, 0 );
                             for ( size_t a = 0; a < h.o.size(); a++ )
                                 h.o[ a ].second = v.o[ a + 1 ].second;
                             e.check( Case( i, ref::Text( h ), t ) );
                         }
                         if ( PROP == 12 )
                         {
                             // into values that hold few and many elements
                             if ( !fam[ i ].described && ( g.k == Node::Arr || g.k == Node::Obj ) )
                                 for ( int held : { 0, 1, 7, 63, 64, 65, 130, 300 } )
                                     e.check( Case( i, t, ref::Text( fam[ i ].grow( held, 0 ) ) ) );
                             break;
                         }
                         // the same document with its members in another order
                         if ( g.k == Node::Obj && g.o.size() > 1 )
                         {
                             Node h = g;
                             std::reverse( h.o.begin(), h.o.end() );
                             e.check( Case( i, p, ref::Text( h ) ) );
                             for ( size_t a = 0; a < h.o.size(); a++ )
                                 std::swap( h.o[ a ], h.o[ a * 7 % h.o.size() ] );
                             e.check( Case( i, p, ref::Text( h ) ) );
                         }
                     }
                 } );
        // Members under every name of one character, alone and before and behind others, with values of every kind.
        if ( PROP != 12 || ( !fam[ i ].described && fam[ i ].grow( 2, 0 ).k == Node::Obj ) )
            e.phase( ( name + " by name" ).c_str(), 130,
                     [ & ]( uint64_t u )
                     {
                         std::string c = u == 0 ? "" : u < 128 ? std::string( 1, char( u ) ) : u == 128 ? "\xC3\xA9" : std::string( 200, 'n' );
                         for ( int size : { 1, 2, 3 } )
                         {
                             const Node                g = fam[ i ].grow( size, 0 );
                             std::function<void( Node&, Node& )> go = [ & ]( Node& whole, Node& n )
                             {
                                 if ( PROP != 12 )
                                     for ( size_t k = 0; k < n.a.size() && k < 2; k++ )
                                         go( whole, n.a[ k ] );
                                 for ( size_t k = 0; k < n.o.size() && k < 4; k++ )
                                 {
                                     for ( const std::string& name : { c, c + "k", "k" + c } )
                                     {
                                         if ( n.get( name ) )
                                             continue;
                                         const Node was = n;
                                         n.o[ k ].first = name;
                                         if ( PROP == 12 )
                                         {
                                             std::sort( n.o.begin(), n.o.end(), []( auto& x, auto& y ) { return x.first < y.first; } );
                                             e.check( Case( i, ref::Text( whole ), "" ) );
                                         }
                                         else
                                             for ( int v = 0; v < 6; v++ )
                                             {
                                                 if ( v )
                                                     n.o[ k ].second = v == 1 ? Node::MkNull() : v == 2 ? Node::MkStr( "s" ) : v == 3 ? Node::MkArr() : v == 4 ? Node::MkObj() : Node::MkNum( 5 );
                                                 std::string t = ref::Text( whole );
                                                 e.state( fw::HashStr( t, i + 1 ) );
                                                 e.check( Case( i, ref::Text( fam[ i ].def() ), t ) );
                                             }
                                         e.step( 3 );
                                         n = was;
                                     }
                                     if ( PROP != 12 )
                                         go( whole, n.o[ k ].second );
                                 }
                             };
                             Node w = g;
                             go( w, w );
                         }
                     } );
        static const std::vector<int> large = { 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 9999, 10000,
                                                16383, 16384, 20000, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 70000 };
        e.phase( ( name + " large" ).c_str(), large.size(),
                 [ & ]( uint64_t u )
                 {
                     const size_t most = e.thorough && PROP == 12 ? 1000000 : 75000;
                     if ( ref::Text( fam[ i ].grow( large[ u ] / 16, 1 ) ).size() > most )
                         return;
                     Node        g = fam[ i ].grow( large[ u ], 1 );
                     std::string t = ref::Text( g );
                     if ( t.size() > most )
                         return;
                     e.state( fw::HashStr( t, i + 1 ) );
                     std::string p = PROP == 12 ? t : ref::Text( fam[ i ].grow( 3, 0 ) );
                     e.check( Case( i, p, PROP == 12 ? "" : t ) );
                     e.step( 3 );
                     if ( PROP != 12 )
                         Spoil( g, g, 2,
                                [ & ]( const Node& n )
                                {
                                    e.check( Case( i, p, ref::Text( n ) ) );
                                    e.step( 3 );
                                } );
                 } );
#if PROP == 12
        e.phase( name.c_str(), v.size(),
                 [ & ]( uint64_t u )
                 {
                     std::string t = ref::Text( v[ u ] );
                     e.state( fw::HashStr( t, i + 1 ) );
                     e.trans( fw::HashStr( t, i + 1001 ) );
                     e.check( Case( i, t, "" ) );
                     e.step( 11 );
                     if ( !fam[ i ].described )
                         for ( size_t k = 0; k < v.size(); k += v.size() / 3 + 1 )
                         {
                             std::string f = ref::Text( v[ v.size() - 1 - k ] );
                             e.trans( fw::Mix( fw::HashStr( t, i + 1001 ), fw::HashStr( f ) ) );
                             e.check( Case( i, t, f ) );
                             e.step( 14 );
                         }
                 } );
#else
        // Previous values: the default, and fully and partly filled ones.
        std::vector<std::string> prev = { ref::Text( fam[ i ].def() ) };
        for ( size_t k = 0; k < v.size() && prev.size() < ( e.thorough ? 6u : 3u ); k += v.size() / 4 + 1 )
            prev.push_back( ref::Text( v[ k ] ) );
        e.phase( name.c_str(), d.size(),
                 [ & ]( uint64_t u )
                 {
                     std::string t = ref::Text( d[ u ] );
                     e.state( fw::HashStr( t, i + 1 ) );
                     for ( auto& p : prev )
                     {
                         e.trans( fw::Mix( fw::HashStr( t, i + 1001 ), fw::HashStr( p ) ) );
                         e.check( Case( i, p, t ) );
                         e.step( PROP == 10 ? 2 : 3 );
                     }
                 } );
#endif
    }
}

int main( int argc, char** argv )
{
    return fw::Main( argc, argv, Enumerate, Run, Show );
}
