// C13: every allocation of every operation is made to fail, alone and with all later ones.
#include "fw.h"
#include "types.h"
#include "texts.h"
#include "alloc.h"

using namespace lib;
using ref::Node;

static const char* Path( const char* kind )
{
    static char p[ 64 ];
    snprintf( p, sizeof p, "%s%d.json", kind, getpid() );
    return p;
}
static std::string ReadAll( const char* path )
{
    std::string s;
    int         fd = open( path, O_RDONLY );
    char        b[ 65536 ];
    ssize_t     n;
    while ( fd >= 0 && ( n = read( fd, b, sizeof b ) ) > 0 )
        s.append( b, size_t( n ) );
    if ( fd >= 0 )
        close( fd );
    return s;
}
static void Put( const char* path, const std::string& t )
{
    int fd = open( path, O_WRONLY | O_CREAT | O_TRUNC, 0644 );
    if ( fd < 0 || write( fd, t.data(), t.size() ) != ssize_t( t.size() ) )
        abort();
    close( fd );
}

static long g_allocations; // of the last undisturbed execution

// Runs op with the n-th allocation failing (0: none); returns its status.
template <class F>
static Status Disturbed( long n, bool all, F op )
{
    alloc::count   = 0;
    alloc::failAt  = n;
    alloc::failAll = all;
    alloc::failed  = false;
    Status s       = op();
    alloc::failAt  = 0;
    alloc::failAll = false;
    if ( n == 0 )
        g_allocations = alloc::count;
    return s;
}

static bool Judge( Status s, bool expectOk, std::string& why )
{
    if ( alloc::failed ? ( expectOk ? s != Status::kException : s == Status::kOk ) : ( ( s == Status::kOk ) != expectOk ) )
    {
        why = std::string( alloc::failed ? "the allocation failed" : "no allocation failed" ) + ", the status is \"" + StatusName( s ) + "\"";
        return false;
    }
    return true;
}

// Case: operation | n | all | type | text
static bool Body( const std::string& op, long n, bool all, int type, const std::string& text, std::string& why )
{
    bool valid = ref::Judge( text ).ok;
    if ( op == "parse" || op == "reparse" || op == "file" )
    {
        StructuredData sd;
        Node           old = ref::Build( "{\"old\":[1,\"two\"]}" );
        if ( op == "reparse" )
            Parse( sd, "{\"old\":[1,\"two\"]}" );
        Array<char> a;
        Fill( a, text );
        const char* p = Path( "i" );
        if ( op == "file" )
            Put( p, text );
        Status s = Disturbed( n, all, [ & ] { return op == "file" ? sd.Parse( p ).status : sd.Parse( a ).status; } );
        if ( !Judge( s, valid, why ) )
            return false;
        if ( s != Status::kOk && sd.GetRootJsonValue() && !( op == "reparse" && ref::Equal( Tree( sd.GetRootJsonValue() ), old, false ) ) )
        {
            why = "failed, but there is a document";
            return false;
        }
        s = sd.Parse( a ).status;
        if ( ( s == Status::kOk ) != valid || ( valid && !ref::Equal( Tree( sd.GetRootJsonValue() ), ref::Build( text ), false ) ) )
        {
            why = "parsing again with memory gives \"" + StatusName( s ) + "\" " + ( s == Status::kOk ? ref::Text( Tree( sd.GetRootJsonValue() ) ) : "" );
            return false;
        }
    }
    else if ( op == "write" )
    {
        StructuredData sd;
        Parse( sd, text );
        const char* p = Path( "o" );
        Status      s = Disturbed( n, all, [ & ] { return sd.Write( p, 3, '\t' ); } );
        if ( !Judge( s, true, why ) )
            return false;
        if ( !ref::Equal( Tree( sd.GetRootJsonValue() ), ref::Build( text ), false ) )
        {
            why = "the document is changed";
            return false;
        }
        s = sd.Write( p, 3, '\t' );
        std::string out = ReadAll( p );
        if ( s != Status::kOk || !ref::Judge( out ).ok || !ref::Equal( ref::Build( out ), ref::Build( text ), true ) )
        {
            why = "writing again with memory gives \"" + StatusName( s ) + "\" " + fw::Show( out );
            return false;
        }
    }
    else
    {
        const T::Entry& e   = T::Family().at( size_t( type ) );
        Node            doc = ref::Build( text );
        T::Faults       f;
        e.faults( doc, f );
        // The value before: the default one or a filled one.
        bool filled = op == "deserialize over";
        Node prev   = op == "serialize" ? doc : filled ? e.grow( 3, 0 ) : e.def();
        e.with( prev,
                [ & ]( T::Access& a )
                {
                    StructuredData sd;
                    if ( op != "serialize" )
                        Parse( sd, text );
                    else
                        Parse( sd, "{\"old\":[1,\"two\"]}" );
                    Status s = Disturbed( n, all, [ & ] { return op == "serialize" ? a.serialize( sd ) : op == "validate" ? a.validate( sd ) : a.deserialize( sd ); } );
                    if ( !Judge( s, f.empty(), why ) )
                        return;
                    if ( op == "serialize" )
                    {
                        if ( !ref::Equal( a.node(), prev, true ) )
                            why = "serializing changed the value";
                        else if ( s != Status::kOk && sd.GetRootJsonValue() && ref::Text( Tree( sd.GetRootJsonValue() ) ) != "{\"old\":[1,\"two\"]}" )
                            why = "failed, but there is a document: " + ref::Text( Tree( sd.GetRootJsonValue() ) );
                        else if ( ( s = a.serialize( sd ) ) != Status::kOk || !ref::Equal( Tree( sd.GetRootJsonValue() ), doc, false ) )
                            why = "serializing again with memory gives \"" + StatusName( s ) + "\" " + ref::Text( Tree( sd.GetRootJsonValue() ) );
                        return;
                    }
                    if ( !ref::Equal( Tree( sd.GetRootJsonValue() ), doc, false ) )
                    {
                        why = "the document is changed";
                        return;
                    }
                    if ( op == "validate" )
                    {
                        if ( !ref::Equal( a.node(), prev, true ) )
                            why = "validation changed the value";
                        return;
                    }
                    s = a.deserialize( sd );
                    if ( ( s == Status::kOk ) != f.empty() )
                        why = "deserializing again with memory gives \"" + StatusName( s ) + "\"";
                    else if ( s == Status::kOk && !ref::Equal( a.node(), e.apply( doc, prev ), true ) )
                        why = "deserializing again with memory gives " + ref::Text( a.node() ) + " instead of " + ref::Text( e.apply( doc, prev ) );
                } );
    }
    return why.empty();
}

static bool Run( const std::string& c, std::string& why )
{
    size_t      p1 = c.find( '|' ), p2 = c.find( '|', p1 + 1 ), p3 = c.find( '|', p2 + 1 ), p4 = c.find( '|', p3 + 1 );
    std::string op = c.substr( 0, p1 ), text = c.substr( p4 + 1 );
    long        n   = atol( c.c_str() + p1 + 1 );
    bool        all = c[ p2 + 1 ] == '1';
    int         ty  = atoi( c.c_str() + p3 + 1 );
    alloc::mismatch = false;
    for ( int k = 0; k < 2; k++ )
    {
        long l = alloc::live, b = alloc::bytes;
        if ( !Body( op, n, all, ty, text, why ) )
            return false;
        if ( alloc::live == l && alloc::bytes == b )
            break; // (the first execution may set up what stays)
        if ( k == 1 )
        {
            why = std::to_string( alloc::live - l ) + " blocks (" + std::to_string( alloc::bytes - b ) + " bytes) are leaked";
            return false;
        }
    }
    if ( alloc::mismatch )
    {
        why = "memory is released by another form of delete than the form of new that made it";
        return false;
    }
    return true;
}

static std::string Show( const std::string& c )
{
    size_t p1 = c.find( '|' ), p2 = c.find( '|', p1 + 1 ), p3 = c.find( '|', p2 + 1 ), p4 = c.find( '|', p3 + 1 );
    int    ty = atoi( c.c_str() + p3 + 1 );
    return c.substr( 0, p1 ) + ( ty >= 0 ? " " + T::Family().at( size_t( ty ) ).name : "" ) + ", allocation " + c.substr( p1 + 1, p2 - p1 - 1 ) + ( c[ p2 + 1 ] == '1' ? " and all later ones" : "" ) +
           " fails: " + fw::Show( c.substr( p4 + 1 ) );
}

static void Enumerate( fw::Engine& e )
{
    auto all = [ & ]( const std::string& op, int type, const std::string& text )
    {
        auto at = [ & ]( long n, bool a ) { return op + "|" + std::to_string( n ) + "|" + ( a ? "1" : "0" ) + "|" + std::to_string( type ) + "|" + text; };
        e.state( fw::HashStr( at( 0, false ) ) );
        e.check( at( 0, false ) );
        long m = g_allocations;
        for ( long n = 1; n <= m && !e.stopped(); n++ )
        {
            e.trans( fw::HashStr( at( n, false ) ) );
            e.check( at( n, false ) );
            if ( n < m )
                e.check( at( n, true ) );
            e.step( 4 );
        }
    };
    static const std::vector<std::string> texts = [ & ]
    {
        std::vector<std::string> t = texts::Documents();
        for ( int n = 1; n <= ( e.thorough ? 5 : 4 ); n++ )
            for ( auto& x : texts::Trees( n ) )
                t.push_back( ref::Text( x ) );
        // sizes around every growth
        for ( size_t n : { 2u, 3u, 4u, 5u, 7u, 8u, 9u, 10u, 15u, 16u, 17u, 31u, 32u, 33u, 40u } )
        {
            std::string a = "[0", o = "{\"k0\":0", s = "[\"\"";
            for ( size_t i = 1; i < n; i++ )
            {
                a += "," + std::to_string( i );
                o += ",\"k" + std::to_string( i * 7 % n ) + "\":" + std::to_string( i );
                s += ",\"" + std::string( i, 'g' ) + "\\n\"";
            }
            t.push_back( a + "]" );
            t.push_back( o + "}" );
            t.push_back( s + "]" );
        }
        for ( size_t n : { 14u, 15u, 16u, 17u, 30u, 31u, 32u, 63u, 64u, 100u, 255u, 256u, 300u, 1000u } )
        {
            t.push_back( "\"" + std::string( n, 'l' ) + "\"" );
            t.push_back( "{\"" + std::string( n, 'l' ) + "\":\"" + texts::Repeat( "\\u00e9", n ) + "\"}" );
        }
        for ( size_t n = 3; n < 30; n += 3 )
            t.push_back( texts::Repeat( "[{\"a\":", n ) + "\"x\"" + texts::Repeat( "}]", n ) );
        // malformed after some work
        for ( const char* b : { "{\"a\":[1,2,\"three\",{\"b\":null}],\"a\":\"again\",\"c\":x}", "[[[[\"abc\",1", "{\"a\":\"b\" \"c\"}", "[1,2,3] 4", "{\"a\":{\"b\":[1,{\"c\":\"d\\q\"}]}}" } )
            t.push_back( b );
        return t;
    }();
    e.phase( "parse", texts.size(), [ & ]( uint64_t u ) { all( "parse", -1, texts[ u ] ); } );
    e.phase( "parse over a document", texts.size(), [ & ]( uint64_t u ) { all( "reparse", -1, texts[ u ] ); } );
    e.phase( "parse a file", texts.size(), [ & ]( uint64_t u ) { all( "file", -1, texts[ u ] ); } );
    e.phase( "write", texts.size(),
             [ & ]( uint64_t u )
             {
                 if ( ref::Judge( texts[ u ] ).ok )
                     all( "write", -1, texts[ u ] );
             } );
    const auto& fam = T::Family();
    for ( size_t i = 0; i < fam.size(); i++ )
    {
        int                      b = e.thorough ? 2 : 1;
        std::vector<std::string> d, v;
        for ( auto& n : fam[ i ].docs( b ) )
            d.push_back( ref::Text( n ) );
        for ( auto& n : T::Values( fam[ i ], b ) )
            v.push_back( ref::Text( n ) );
        for ( int k = 0; k < 20; k += k < 5 ? 1 : 4 )
        {
            d.push_back( ref::Text( fam[ i ].grow( k, 0 ) ) );
            v.push_back( d.back() );
        }
        if ( !fam[ i ].writable )
            v.clear();
        e.phase( fam[ i ].name.c_str(), d.size() + v.size(),
                 [ & ]( uint64_t u )
                 {
                     if ( u < d.size() )
                     {
                         all( "deserialize", int( i ), d[ u ] );
                         all( "deserialize over", int( i ), d[ u ] );
                         all( "validate", int( i ), d[ u ] );
                     }
                     else
                         all( "serialize", int( i ), v[ u - d.size() ] );
                 } );
    }
}

int main( int argc, char** argv )
{
    return fw::Main( argc, argv, Enumerate, Run, Show );
}
