// C05: one document or none, in every history of operations on one object.
// C14: every history frees exactly what it allocated.
#include "fw.h"
#include "alloc.h"
#include "types.h"
#include "texts.h"

using namespace lib;
using ref::Node;

namespace own
{
    using C4::Json::Status;
    using C4::Json::Value;

    // A type with hand-written functions of which each can fail after doing part of its work.
    struct Hand
    {
        double a    = 0;
        bool   fail = false;
    };
    inline Status Serialize( Value* v, const Hand& h ) noexcept
    {
        Status s = C4::Json::Serialize( v, "a", h.a );
        return s != Status::kOk ? s : h.fail ? Status::kMissingObjectElement : Status::kOk;
    }
    inline Status Deserialize( const Value* v, Hand& h ) noexcept
    {
        Status s = C4::Json::Deserialize( v, "a", h.a );
        return s != Status::kOk ? s : h.fail ? Status::kMissingObjectElement : Status::kOk;
    }
    inline Status Validate( const Value* v, const Hand& h ) noexcept
    {
        Status s = C4::Json::Validate( v, "a", h.a );
        return s != Status::kOk ? s : h.fail ? Status::kMissingObjectElement : Status::kOk;
    }
    struct Holder
    {
        double   before = 1;
        Hand     h;
        String<> after;
    };
#define HOLDER_PROTO "before", object.before, "h", object.h, "after", object.after
    DEFINE_JSON4C4_FUNCTIONS( Holder, HOLDER_PROTO )

    // A description that cannot be serialized: the unnamed string has no place in an object.
    struct Bad
    {
        double   a = 1;
        String<> s;
    };
#define BAD_PROTO "a", object.a, object.s
    DEFINE_JSON4C4_FUNCTIONS( Bad, BAD_PROTO )
} // namespace own

struct Op
{
    std::string name;
    enum
    {
        Load,  // replaces the document by `doc`, and succeeds
        Fail,  // fails; the document stays or goes
        Read,  // fails if there is no document; `want` gives the permitted statuses otherwise; changes nothing
    } kind;
    Node                                                    doc;
    std::function<bool( StructuredData&, std::string& why )> act; // true: reported success
    std::function<bool( const Node& )>                      fits; // Read: success expected for this document
    bool                                                    file = false;
};

static Node B( const char* t )
{
    return ref::Build( t );
}

template <class X>
static Op Ser( const char* name, const char* doc )
{
    Op o;
    o.name = std::string( "serialize " ) + name;
    o.kind = Op::Load;
    o.doc  = B( doc );
    Node d = o.doc;
    o.act  = [ d ]( StructuredData& sd, std::string& )
    {
        X v = X();
        T::M<X>::fill( v, d );
        return sd.SerializeFrom( v ) == Status::kOk;
    };
    return o;
}
template <class X, class F>
static Op SerSet( const char* name, F set, const char* doc )
{
    Op o;
    o.name = std::string( "serialize " ) + name;
    o.kind = Op::Load;
    o.doc  = B( doc );
    o.act  = [ set ]( StructuredData& sd, std::string& )
    {
        X v = X();
        set( v );
        return sd.SerializeFrom( v ) == Status::kOk;
    };
    return o;
}
template <class X>
static Op Des( const char* name, bool validate )
{
    Op o;
    o.name = std::string( validate ? "validate " : "deserialize " ) + name;
    o.kind = Op::Read;
    o.act  = [ validate ]( StructuredData& sd, std::string& )
    {
        X v = X();
        if ( validate )
        {
            const StructuredData& c = sd;
            const X&              w = v;
            return C4::Json::Validate( c, w ) == Status::kOk;
        }
        return sd.DeserializeTo( v ) == Status::kOk;
    };
    o.fits = []( const Node& n )
    {
        T::Faults f;
        T::M<X>::faults( n, f );
        return f.empty();
    };
    return o;
}
template <class X, class F>
static Op SerFail( const char* name, F set )
{
    Op o;
    o.name = std::string( "serialize failing " ) + name;
    o.kind = Op::Fail;
    o.act  = [ set ]( StructuredData& sd, std::string& )
    {
        X v = X();
        set( v );
        return sd.SerializeFrom( v ) == Status::kOk;
    };
    return o;
}
static Op ParseOp( const char* name, const std::string& text, bool ok, int mode = 0 )
{
    Op o;
    o.name = std::string( "parse " ) + name;
    o.kind = ok ? Op::Load : Op::Fail;
    if ( ok )
        o.doc = ref::Build( text );
    o.act = [ text, mode ]( StructuredData& sd, std::string& )
    {
        Array<char> a;
        if ( mode == 0 )
            Fill( a, text );
        else if ( mode == 1 )
            Fill( a, text, false );
        return sd.Parse( a ).status == Status::kOk;
    };
    return o;
}
static Op FileOp( const char* name, const char* path, const char* text, bool ok )
{
    Op o;
    o.name = std::string( "parse file " ) + name;
    o.kind = ok ? Op::Load : Op::Fail;
    o.file = true;
    if ( ok )
        o.doc = ref::Build( text );
    std::string p = path;
    o.act         = [ p ]( StructuredData& sd, std::string& ) { return sd.Parse( p.c_str() ).status == Status::kOk; };
    return o;
}

static std::string ReadAll( const char* path )
{
    std::string s;
    int         fd = open( path, O_RDONLY );
    char        b[ 4096 ];
    ssize_t     n;
    while ( fd >= 0 && ( n = read( fd, b, sizeof b ) ) > 0 )
        s.append( b, size_t( n ) );
    if ( fd >= 0 )
        close( fd );
    return s;
}

static const char* const kDoc1 = "{\"x\":1.5,\"s\":\"text\",\"b\":true,\"n\":null}";
static const char* const kDoc2 = "[3,1,2]";
static const char* const kDoc3 = "{\"z\":[{},{\"x\":\"y\",\"a\":[[null],{\"q\":{}}]}],\"a\":{\"long\":\"0123456789012345678901234567890123456789012345678901234567890123456789\"},\"m\":-1e3}";
static const char* const kFile = "{\"k\":[true,{\"j\":\"from a file\"}],\"b\":2}";

static void MakeFiles()
{
    // Other workers may be reading them: each appears at once.
    auto put = []( const char* p, const std::string& t )
    {
        std::string tmp = std::string( p ) + "." + std::to_string( getpid() );
        int         fd  = open( tmp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 );
        if ( fd < 0 || write( fd, t.data(), t.size() ) != ssize_t( t.size() ) )
            abort();
        close( fd );
        if ( rename( tmp.c_str(), p ) != 0 )
            abort();
    };
    put( "good.json", kFile );
    put( "bad.json", "{\"k\":[1,2,{\"a\":\"b\" \"c\"}]}" );
    put( "cut.json", "{\"k\":[1,2,{\"a\":\"b" );
    put( "empty.json", "" );
    put( "large.json", "[" + std::string( 70000, ' ' ) + "]" );
    mkdir( "dir.json", 0755 );
}

static const std::vector<Op>& Ops()
{
    static const std::vector<Op> ops = []
    {
        std::vector<Op> o;
        o.push_back( ParseOp( "object", kDoc1, true ) );
        o.push_back( ParseOp( "array", kDoc2, true ) );
        o.push_back( ParseOp( "deep", kDoc3, true ) );
        o.push_back( ParseOp( "string", "\"s\"", true ) );
        o.push_back( ParseOp( "repeated names", "{\"b\":{\"x\":1},\"a\":[1],\"b\":{\"y\":[2]},\"a\":3}", true ) );
        o.push_back( ParseOp( "truncated", "{\"x\":1,\"s\":[1,\"abc", false ) );
        o.push_back( ParseOp( "wrong inside", "[{\"a\":[1,{\"b\":\"c\"}],\"a\":2,\"d\":x}]", false ) );
        o.push_back( ParseOp( "trailing text", "{\"x\":1} {\"y\":2}", false ) );
        o.push_back( ParseOp( "empty", "", false ) );
        o.push_back( ParseOp( "unterminated", "[1,2]", false, 1 ) );
        o.push_back( ParseOp( "nothing", "", false, 2 ) );
        o.push_back( FileOp( "good", "good.json", kFile, true ) );
        o.push_back( FileOp( "bad", "bad.json", "", false ) );
        o.push_back( FileOp( "cut", "cut.json", "", false ) );
        o.push_back( FileOp( "missing", "no such file", "", false ) );
        o.push_back( FileOp( "empty", "empty.json", "", false ) );
        o.push_back( FileOp( "too large", "large.json", "", false ) );
        o.push_back( FileOp( "directory", "dir.json", "", false ) );
        o.push_back( Ser<T::S1>( "S1", kDoc1 ) );
        o.push_back( Ser<Array<double>>( "Array<double>", "[5,4]" ) );
        o.push_back( Ser<ObjectMap<String<>>>( "ObjectMap<String<>>", "{\"a\":\"b\",\"c\":\"d\"}" ) );
        o.push_back( Ser<bool>( "bool", "true" ) );
        o.push_back( Ser<std::vector<T::S2>>( "vector<S2>", "[{\"x\":1,\"s\":\"q\",\"a\":[1]},{\"x\":2,\"s\":\"\",\"a\":[]}]" ) );
        // Names that are the same up to a null character, at which a text ends.
        o.push_back( SerSet<std::map<std::string, std::vector<std::string>>>(
            "map with cut names",
            []( std::map<std::string, std::vector<std::string>>& v )
            {
                v[ std::string( "a" ) ]           = { "1", "2" };
                v[ std::string( "a\0", 2 ) ]      = { "3" };
                v[ std::string( "a\0b", 3 ) ]     = { "4", std::string( 100, 'x' ) };
                v[ std::string( "b\0a", 3 ) ]     = { std::string( "5\0006", 3 ) };
                v[ std::string( "c" ) ]           = {};
            },
            "{\"a\":[\"1\",\"2\"],\"b\":[\"5\"],\"c\":[]}" ) );
        o.push_back( SerFail<own::Bad>( "description", []( own::Bad& ) {} ) );
        o.push_back( SerFail<own::Holder>( "member", []( own::Holder& h ) { h.h.fail = true; } ) );
        o.push_back( SerFail<std::vector<own::Hand>>( "element", []( std::vector<own::Hand>& v ) { v.resize( 3 ); v[ 1 ].fail = true; } ) );
        o.push_back( SerFail<std::map<std::string, own::Hand>>( "map element", []( std::map<std::string, own::Hand>& v ) { v[ "a" ]; v[ "b" ].fail = true; v[ "c" ]; } ) );
        o.push_back( SerFail<Array<own::Hand>>( "array element", []( Array<own::Hand>& v ) { v.AppendArrayElement( own::Hand() ); v.AppendArrayElement( own::Hand() ); v[ 1 ].fail = true; } ) );
        o.push_back( Des<T::S1>( "S1", false ) );
        o.push_back( Des<T::S1>( "S1", true ) );
        o.push_back( Des<Array<double>>( "Array<double>", false ) );
        o.push_back( Des<std::map<std::string, std::string>>( "map", false ) );
        o.push_back( Des<ObjectMap<String<>>>( "ObjectMap", true ) );
        {
            Op w;
            w.name = "write";
            w.kind = Op::Read;
            w.file = true;
            w.act  = []( StructuredData& sd, std::string& why )
            {
                char path[ 32 ];
                snprintf( path, sizeof path, "w%d.json", getpid() );
                return sd.Write( path ) == Status::kOk;
            };
            w.fits = []( const Node& ) { return true; };
            o.push_back( w );
            w.name = "write to no directory";
            w.act  = []( StructuredData& sd, std::string& ) { return sd.Write( "no such directory/x.json" ) == Status::kOk; };
            w.fits = []( const Node& ) { return false; };
            o.push_back( w );
        }
        {
            Op w;
            w.name = "look up";
            w.kind = Op::Read;
            w.act  = []( StructuredData& sd, std::string& )
            {
                const StructuredData& c = sd;
                const Value*          v = c.GetRootJsonValue();
                if ( !v )
                    return false;
                if ( const ObjectValue* ov = v->AsJsonObjectValue() )
                {
                    ov->FindString( "s" );
                    ov->FindNumber( "x" );
                    ov->FindJsonObjectValue( "a" );
                    ov->FindJsonValueArray( "z" );
                    ov->FindBool( "nothing" );
                }
                return true;
            };
            w.fits = []( const Node& ) { return true; };
            o.push_back( w );
        }
        return o;
    }();
    return ops;
}

#if PROP == 5
static bool Same( StructuredData& sd, const Node* want, std::string& why )
{
    const Value* v = sd.GetRootJsonValue();
    if ( !want )
    {
        if ( v )
            why = "there is a document: " + ref::Text( Tree( v ) );
        return !v;
    }
    if ( !v )
    {
        why = "there is no document";
        return false;
    }
    std::string problem;
    Node        t = Tree( v, &problem );
    if ( !ref::Equal( *want, t, false ) )
    {
        why = "the document is " + ref::Text( t ) + " " + problem;
        return false;
    }
    return true;
}

// Case: one byte per operation, 'A' + index.
static bool Run( const std::string& c, std::string& why )
{
    const auto&    ops = Ops();
    StructuredData sd;
    const Node*    doc = nullptr;
    for ( size_t i = 0; i < c.size(); i++ )
    {
        const Op&   o = ops.at( size_t( c[ i ] - 'A' ) );
        std::string w;
        bool        ok = o.act( sd, w );
        auto        at = [ & ]( const std::string& s ) { why = "step " + std::to_string( i + 1 ) + " (" + o.name + "): " + s; return false; };
        if ( o.kind == Op::Load )
        {
            if ( !ok )
                return at( "reports failure" );
            doc = &o.doc;
            if ( !Same( sd, doc, w ) )
                return at( w + ", expected " + ref::Text( *doc ) );
        }
        else if ( o.kind == Op::Fail )
        {
            if ( ok )
                return at( "reports success" );
            std::string w2;
            if ( Same( sd, nullptr, w ) )
                doc = nullptr;
            else if ( !doc || !Same( sd, doc, w2 ) )
                return at( "failed, but " + w );
        }
        else
        {
            bool want = doc && o.fits( *doc );
            if ( ok != want )
                return at( ok ? "reports success" : "reports failure" );
            if ( !Same( sd, doc, w ) )
                return at( "changed the document: " + w );
            if ( o.name == "write" && ok )
            {
                char path[ 32 ];
                snprintf( path, sizeof path, "w%d.json", getpid() );
                std::string t = ReadAll( path );
                if ( !ref::Judge( t ).ok || !ref::Equal( *doc, ref::Build( t ), true ) )
                    return at( "wrote " + t );
            }
        }
    }
    return true;
}
#else
// Case: 'H' + operations, 'T' + text, 'Y' + type index | document.
static bool Sequence( const std::string& c, StructuredData& sd )
{
    const auto& ops = Ops();
    for ( size_t i = 1; i < c.size(); i++ )
    {
        std::string w;
        ops.at( size_t( c[ i ] - 'A' ) ).act( sd, w );
    }
    return true;
}

static bool Once( const std::string& c, std::string& why )
{
    if ( c[ 0 ] == 'H' )
    {
        StructuredData sd;
        Sequence( c, sd );
        long l1 = alloc::live, b1 = alloc::bytes;
        for ( int k = 0; k < 2; k++ )
        {
            Sequence( c, sd );
            if ( alloc::live != l1 || alloc::bytes != b1 )
            {
                why = "repeating the operations accumulates memory: " + std::to_string( l1 ) + " blocks of " + std::to_string( b1 ) + " bytes become " +
                      std::to_string( alloc::live ) + " of " + std::to_string( alloc::bytes );
                return false;
            }
        }
    }
    else if ( c[ 0 ] == 'T' )
    {
        std::string    t = c.substr( 1 );
        StructuredData sd;
        lib::Parse( sd, t );
    }
#if !SHALLOW
    else
    {
        size_t          p = c.find( '|' );
        const T::Entry& e = T::Family().at( size_t( atoi( c.c_str() + 1 ) ) );
        std::string     t = c.substr( p + 1 );
        Node            prev = e.def(), after;
        StructuredData  sd, sd2;
        lib::Parse( sd, t );
        if ( e.deserialize( sd, prev, after ) == Status::kOk )
        {
            Node a2;
            e.deserialize( sd, after, a2 );
            e.validate( sd, after, a2 );
            e.serialize( sd2, after );
            e.serialize( sd2, prev );
            // into the value that the document has
            if ( e.into )
            {
                e.into( sd.GetRootJsonValue(), after );
                e.into( sd.GetRootJsonValue(), prev );
                e.into( sd.GetRootJsonValue(), after );
            }
        }
        else
            e.validate( sd, prev, after );
    }
#endif
    return true;
}

static bool Run( const std::string& c, std::string& why )
{
    alloc::mismatch = false;
    for ( int k = 0; k < 2; k++ )
    {
        long l = alloc::live, b = alloc::bytes;
        if ( !Once( c, why ) )
            return false;
        // The first run may set things up that stay; the second must leave nothing.
        if ( k == 0 && ( alloc::live == l && alloc::bytes == b ) )
            break;
        if ( k == 1 && ( alloc::live != l || alloc::bytes != b ) )
        {
            why = std::to_string( alloc::live - l ) + " blocks (" + std::to_string( alloc::bytes - b ) + " bytes) are not released after everything is destroyed";
            return false;
        }
    }
    if ( alloc::mismatch )
    {
        why = "memory is released by another form of delete than the form of new that made it";
        return false;
    }
    return true;
}
#endif

static std::string Show( const std::string& c )
{
    std::string s;
    size_t      i = 0;
    if ( PROP == 14 )
    {
        if ( c[ 0 ] == 'T' )
            return "text " + fw::Show( c.substr( 1 ) );
        if ( c[ 0 ] == 'Y' )
            return "type " + fw::Show( c.substr( 1 ) );
        i = 1;
    }
    for ( ; i < c.size(); i++ )
        s += ( s.empty() ? "" : "; " ) + ( size_t( c[ i ] - 'A' ) < Ops().size() ? Ops()[ size_t( c[ i ] - 'A' ) ].name : "?" );
    return s;
}

static void Enumerate( fw::Engine& e )
{
    MakeFiles();
    size_t      n   = Ops().size();
    int         len = e.thorough ? 5 : 4;
#if SHALLOW
    len--;
#endif
    std::string pre = PROP == 14 ? "H" : "";
    // Every sequence of exactly len operations (all shorter ones are prefixes of these and checked at every step).
    uint64_t units = n * n;
    e.phase( "histories", units,
             [ & ]( uint64_t u )
             {
                 std::string                       c = pre + char( 'A' + u / n ) + char( 'A' + u % n );
                 std::function<void( std::string )> go = [ & ]( std::string s )
                 {
                     if ( e.stopped() )
                         return;
                     if ( int( s.size() - pre.size() ) == len )
                     {
                         e.check( s );
                         e.step( uint64_t( len ) * ( PROP == 14 ? 3 : 1 ) );
                         return;
                     }
                     for ( size_t k = 0; k < n; k++ )
                         go( s + char( 'A' + k ) );
                 };
                 go( c );
                 // The model's states: no document, or the document of an operation; transitions by each operation.
                 e.state( u % n + 1 );
                 e.trans( u + 1 );
             } );
#if PROP == 14 && !SHALLOW
    texts::Bounds q = { 6, 5, 4, 6, 6, 3, 4, 3, false, false, true, false, 100, 1100, 5 };
    texts::Bounds t = { 8, 7, 5, 8, 8, 4, 5, 4, false, false, true, true, 400, 4096, 6 };
    texts::All( e, e.thorough ? t : q, [ & ]( const std::string& x ) { e.check( "T" + x ); e.step( 1 ); } );
    const auto& fam = T::Family();
    for ( size_t i = 0; i < fam.size(); i++ )
    {
        std::vector<Node> d = fam[ i ].docs( e.thorough ? 2 : 1 );
        e.phase( fam[ i ].name.c_str(), d.size() + 48,
                 [ & ]( uint64_t u )
                 {
                     static const int sizes[] = { 63, 64, 65, 127, 128, 129, 260, 1030 };
                     int              grown   = int( u ) - int( d.size() );
                     std::string      t       = ref::Text( grown < 0 ? d[ u ] : fam[ i ].grow( grown < 40 ? grown : sizes[ grown - 40 ], grown < 40 ? 0 : 1 ) );
                     if ( t.size() > 100000 )
                         return;
                     e.state( fw::HashStr( t, i + 1 ) );
                     e.trans( fw::HashStr( t, i + 1001 ) );
                     e.check( "Y" + std::to_string( i ) + "|" + t );
                     e.step( 6 );
                 } );
    }
#endif
}

int main( int argc, char** argv )
{
    return fw::Main( argc, argv, Enumerate, Run, Show );
}
