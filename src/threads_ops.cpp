// C15: the operations run against each other. Compiled with instrumentation: every basic block, load and store in here
// and in the library reports to the scheduler in threads.cpp.
#include "types.h"
#include "threads.h"
#include <cstdio>

using namespace lib;
using ref::Node;

static void Put( std::string& out, const char* k, const std::string& v )
{
    out += k;
    out += '=';
    out += v;
    out += ';';
}
static std::string Txt( const ParseResult& r )
{
    String<256> t = ParseResultToString( r );
    return std::to_string( int( r.status ) ) + "@" + std::to_string( r.errorLine ) + ":" + std::to_string( r.errorColumn ) + " " + static_cast<const char*>( t );
}
static void Dump( const Value* v, std::string& o )
{
    char b[ 40 ];
    if ( !v )
        o += "none";
    else if ( const String<>* s = v->GetDataAsPointerTo<String<>>() )
        o += std::string( "\"" ) + static_cast<const char*>( *s ) + "\"";
    else if ( const double* d = v->GetDataAsPointerTo<double>() )
    {
        snprintf( b, sizeof b, "%a", *d );
        o += b;
    }
    else if ( const bool* t = v->GetDataAsPointerTo<bool>() )
        o += *t ? "T" : "F";
    else if ( v->GetDataAsPointerTo<Null>() )
        o += "N";
    else if ( const Array<Value*>* a = v->GetDataAsPointerTo<Array<Value*>>() )
    {
        o += '[';
        for ( int i = 0; i < a->GetArrayElementCount(); i++ )
        {
            Dump( ( *a )[ i ], o );
            o += ',';
        }
        o += ']';
    }
    else if ( const ObjectValue* ob = v->AsJsonObjectValue() )
    {
        o += '{';
        for ( const Value* m : *ob )
        {
            o += static_cast<const char*>( m->name );
            o += ':';
            Dump( m, o );
            o += ',';
        }
        o += '}';
    }
}
static std::string Dump( StructuredData& d )
{
    std::string o;
    Dump( static_cast<const StructuredData&>( d ).GetRootJsonValue(), o );
    return o;
}
static std::string Slurp( const std::string& f )
{
    std::string s;
    if ( FILE* h = fopen( f.c_str(), "rb" ) )
    {
        char   b[ 1024 ];
        size_t n;
        while ( ( n = fread( b, 1, sizeof b, h ) ) > 0 )
            s.append( b, n );
        fclose( h );
    }
    else
        s = "(no file)";
    return s;
}
static void Spill( const std::string& f, const std::string& s )
{
    if ( FILE* h = fopen( f.c_str(), "wb" ) )
    {
        fwrite( s.data(), 1, s.size(), h );
        fclose( h );
    }
}

// Texts by variant: different values, so that a mixture is visible.
static const char* Good( int v )
{
    static const char* const t[] = {
        "{\"a\":[1.5,-2e3,true],\"n\\u00e9\":\"x\\ty\\ud83d\\ude00\",\"z\":null}",
        "{\"b\":[77,0.125,false,12],\"q\":\"\\ud83c\\udf0d long text of the second one \\u20ac\",\"m\":{\"k\":\"v\"}}",
    };
    return t[ v ];
}
static const char* Bad( int v )
{
    static const char* const t[] = { "{\"a\":1,\n  \"b\" 2}", "[1,\n2,\n3,\n  01]" };
    return t[ v ];
}
static const char* Small( int v )
{
    static const char* const t[] = { "[4.25]", "\"s\"" };
    return t[ v ];
}
// Files have the same length of name, one relative, one absolute.
static std::string Name( int v, const char* what )
{
    return v ? ops::dir + "/" + what + "B" : std::string( what ) + "A";
}

template <class X>
static void Round( X& x, int v, const char* what, std::string& out )
{
    StructuredData d;
    Put( out, "ser", std::to_string( int( d.SerializeFrom( x ) ) ) );
    Put( out, "doc", Dump( d ) );
}

static void FillS2( T::S2& s, int v )
{
    s.x = v ? 2.5 : -7;
    s.s = v ? "second" : "1st \"one\"";
    for ( int i = 0; i < 2 + v; i++ )
        s.a.AppendArrayElement( i + 0.25 * v );
}

namespace ops
{
    std::string dir;

    struct Entry
    {
        const char* name;
        void ( *run )( int v, std::string& out );
        bool small;
    };
    static const Entry kOps[] = {
        { "parse", []( int v, std::string& o ) { StructuredData d; Put( o, "r", Txt( Parse( d, Good( v ) ) ) ); Put( o, "doc", Dump( d ) ); }, false },
        { "parse malformed", []( int v, std::string& o ) { StructuredData d; Put( o, "r", Txt( Parse( d, Bad( v ) ) ) ); Put( o, "doc", Dump( d ) ); }, false },
        { "parse small", []( int v, std::string& o ) { StructuredData d; Put( o, "r", std::to_string( int( Parse( d, Small( v ) ).status ) ) ); Put( o, "doc", Dump( d ) ); }, true },
        { "parse number", []( int v, std::string& o ) { StructuredData d; Put( o, "r", std::to_string( int( Parse( d, v ? "123456789.5" : "-0.1e-7" ).status ) ) ); Put( o, "doc", Dump( d ) ); }, true },
        { "parse escape", []( int v, std::string& o ) { StructuredData d; Put( o, "r", std::to_string( int( Parse( d, v ? "\"\\n\\ud83c\\udf0d\"" : "\"\\ud83d\\ude00z\"" ).status ) ) ); Put( o, "doc", Dump( d ) ); }, true },
        { "parse error", []( int v, std::string& o ) { StructuredData d; ParseResult r = Parse( d, v ? "[\n\n  x" : "\"\\q" ); Put( o, "r", Txt( r ) ); }, true },
        { "parse file", []( int v, std::string& o ) { std::string f = Name( v, "in" ); Spill( f, Good( v ) ); StructuredData d; Put( o, "r", Txt( d.Parse( f.c_str() ) ) ); Put( o, "doc", Dump( d ) ); }, false },
        { "parse bad file", []( int v, std::string& o ) { std::string f = Name( v, "bad" ); if ( v ) Spill( f, Bad( v ) ); StructuredData d; Put( o, "r", Txt( d.Parse( f.c_str() ) ) ); Put( o, "doc", Dump( d ) ); }, true },
        { "write", []( int v, std::string& o ) {
             StructuredData d; Parse( d, Good( v ) );
             std::string f = Name( v, "out" );
             Put( o, "w", std::to_string( int( d.Write( f.c_str(), v ? 1 : 3, v ? '\t' : ' ' ) ) ) );
             Put( o, "file", Slurp( f ) ); }, false },
        { "write number", []( int v, std::string& o ) {
             StructuredData d; Parse( d, v ? "[0.1]" : "[-33.75]" );
             std::string f = Name( v, "num" );
             Put( o, "w", std::to_string( int( d.Write( f.c_str(), v ? 1 : 3, v ? '\t' : ' ' ) ) ) );
             Put( o, "file", Slurp( f ) ); }, true },
        { "serialize and deserialize", []( int v, std::string& o ) {
             T::S2 s; FillS2( s, v );
             StructuredData d;
             Put( o, "ser", std::to_string( int( d.SerializeFrom( s ) ) ) );
             Put( o, "doc", Dump( d ) );
             T::S2 t;
             Put( o, "val", std::to_string( int( Validate( static_cast<const Value*>( d.GetRootJsonValue() ), t ) ) ) );
             Put( o, "des", std::to_string( int( d.DeserializeTo( t ) ) ) );
             Put( o, "x", std::to_string( t.x ) ); Put( o, "s", static_cast<const char*>( t.s ) );
             for ( double y : t.a ) Put( o, "a", std::to_string( y ) ); }, false },
        { "containers", []( int v, std::string& o ) {
             std::map<std::string, std::vector<double>> m;
             m[ v ? "one" : "eins" ] = { 1.0 + v, 2.0 };
             m[ v ? "two" : "zwei" ] = {};
             StructuredData d;
             Put( o, "ser", std::to_string( int( d.SerializeFrom( m ) ) ) );
             Put( o, "doc", Dump( d ) );
             ObjectMap<Array<double>> n;
             Put( o, "des", std::to_string( int( d.DeserializeTo( n ) ) ) );
             for ( auto* e : n ) { Put( o, "name", static_cast<const char*>( e->name ) ); for ( double y : e->data ) Put( o, "a", std::to_string( y ) ); } }, false },
        { "refused deserialization", []( int v, std::string& o ) {
             StructuredData d; Parse( d, v ? "{\"x\":1,\"s\":true}" : "{\"s\":\"t\"}" );
             T::S2 t;
             Put( o, "val", std::to_string( int( Validate( static_cast<const Value*>( d.GetRootJsonValue() ), t ) ) ) );
             Put( o, "des", std::to_string( int( d.DeserializeTo( t ) ) ) ); }, true },
        { "lookup", []( int v, std::string& o ) {
             StructuredData d; Parse( d, v ? "{\"p\":1,\"q\":[2]}" : "{\"p\":true,\"r\":\"s\"}" );
             const Value* r = d.GetRootJsonValue();
             const ObjectValue* ob = r ? r->AsJsonObjectValue() : nullptr;
             for ( const char* n : { "p", "q", "r" } ) { Put( o, n, "" ); const Value* m = ob ? ob->FindMapElement( String<>( n ) ) : nullptr; Dump( m, o ); } }, true },
        { "statuses", []( int v, std::string& o ) {
             for ( int i = 0; i < 29; i++ ) { String<256> t = StatusToString( Status( i ) ); o += static_cast<const char*>( t ); o += '|'; }
             ParseResult r; r.status = v ? Status::kExpectedColon : Status::kFloatInvalid; r.errorLine = 12 + 1000 * v; r.errorColumn = 7;
             String<256> t = ParseResultToString( r ); Put( o, "t", static_cast<const char*>( t ) ); Put( o, "v", GetVersion() ); }, false },
        { "strings", []( int v, std::string& o ) {
             String<> a( v ? "first part" : "the other, longer initial part of it" );
             a += v ? 4711 : -12; a += v ? "xyz" : "q\n\"";
             String<64> b( v ? 99 : 100000 ); b += a;
             a.ReplaceChar( 'e', '3' );
             String<> c = a + b; String<> e = c; e.SetStringLength( 9 );
             String<> n( int64( v ? 4000000000000 : -5 ) );
             for ( const char* p : { static_cast<const char*>( a ), static_cast<const char*>( b ), static_cast<const char*>( c ), static_cast<const char*>( e ), static_cast<const char*>( n ) } ) Put( o, "s", p ); }, false },
        { "unicode and numbers", []( int v, std::string& o ) {
             char b[ 64 ] = {};
             int  n = Text::WriteUnicodeChar( b, v ? 0x20AC : 0x1F600 );
             uint32 c = 0; Text::ReadUnicodeChar( b, &c );
             Put( o, "u", std::string( b, n ) + std::to_string( c ) + std::to_string( Text::GetUnicodeCharCount( v ? "\xE2\x82\xAC" "a" : "\xC3\xA9\xC3\xA9\xC3\xA9" ) ) );
             n = Text::IntegerToString( v ? -123456 : 98, b, 60 ); Put( o, "i", std::string( b, n ) );
             n = Text::Integer64ToString( v ? 123456789012345 : -1, b, 60 ); Put( o, "i", std::string( b, n ) );
             auto h = Text::IntegerToHexString8( v ? 0xCAFE : 0x1234 ); Put( o, "h", static_cast<const char*>( h ) ); }, true },
        { "map and array", []( int v, std::string& o ) {
             ObjectMap<double> m;
             for ( int i = 0; i < 5; i++ ) { auto* e = new ObjectMapElement<double>; e->name = String<>( ( i * 3 + v ) % 5 ); e->data = i; if ( !m.InsertMapElement( e ) ) delete e; }
             for ( auto* e : m ) Put( o, static_cast<const char*>( e->name ), std::to_string( e->data ) );
             Array<String<>, 2> a; for ( int i = 0; i < 4; i++ ) a.AppendArrayElement( String<>( i * 10 + v ) );
             a.RemoveArrayElement( 1 ); a.InsertArrayElement( 2, String<>( "in" ) );
             for ( auto& s : a ) Put( o, "e", static_cast<const char*>( s ) ); }, false },
        // lengths beyond those of local buffers: 60 digits, 90 characters, names of 40, eight levels
        { "parse long", []( int v, std::string& o ) {
             std::string t = "[";
             for ( int i = 0; i < 60; i++ ) t += char( '1' + ( i + v ) % 9 );
             t += ".25,\"";
             for ( int i = 0; i < 90; i++ ) t += char( 'a' + ( i + 7 * v ) % 26 );
             t += "\",{\"";
             for ( int i = 0; i < 40; i++ ) t += char( 'A' + ( i + 5 * v ) % 26 );
             t += v ? "\":[[[[[[1,2,3,4,5,6]]]]]]}]" : "\":[[[[[[true,null,{},[],\"\",0]]]]]]}]";
             StructuredData d; Put( o, "r", Txt( Parse( d, t.c_str() ) ) ); Put( o, "doc", Dump( d ) );
             std::string f = Name( v, "lng" );
             Put( o, "w", std::to_string( int( d.Write( f.c_str(), v ? 9 : 2, v ? '\t' : ' ' ) ) ) );
             Put( o, "file", Slurp( f ) ); }, false },
        { "write escapes", []( int v, std::string& o ) {
             ObjectMap<String<>> m;
             auto* e = new ObjectMapElement<String<>>; e->name = v ? "\x01\\" : "\"\x1f"; e->data = v ? "\n\"\xC3\xA9" : "\\\\\x02"; m.InsertMapElement( e );
             StructuredData d; Put( o, "ser", std::to_string( int( d.SerializeFrom( m ) ) ) );
             std::string f = Name( v, "esc" );
             Put( o, "w", std::to_string( int( d.Write( f.c_str(), v, ' ' ) ) ) );
             Put( o, "file", Slurp( f ) ); }, true },
        { "standard containers", []( int v, std::string& o ) {
             std::vector<std::string> a { v ? "one" : "eins", v ? "" : "a text that is longer than the room inside" };
             std::map<std::string, bool> m { { v ? "t" : "w", true }, { "f", v != 0 } };
             std::vector<bool> b { v != 0, true };
             StructuredData d; Put( o, "ser", std::to_string( int( d.SerializeFrom( a ) ) ) ); Put( o, "doc", Dump( d ) );
             std::vector<std::string> c; Put( o, "val", std::to_string( int( Validate( static_cast<const Value*>( d.GetRootJsonValue() ), c ) ) ) );
             Put( o, "des", std::to_string( int( d.DeserializeTo( c ) ) ) ); for ( auto& x : c ) Put( o, "e", x );
             Put( o, "ser", std::to_string( int( d.SerializeFrom( m ) ) ) ); Put( o, "doc", Dump( d ) );
             std::map<std::string, bool> n; Put( o, "des", std::to_string( int( d.DeserializeTo( n ) ) ) ); for ( auto& x : n ) Put( o, x.first.c_str(), std::to_string( x.second ) );
             Put( o, "ser", std::to_string( int( d.SerializeFrom( b ) ) ) ); Put( o, "bad", std::to_string( int( d.DeserializeTo( n ) ) ) ); Put( o, "doc", Dump( d ) ); }, false },
    };
    int Count()
    {
        return int( sizeof kOps / sizeof kOps[ 0 ] );
    }
    const char* OpName( int k )
    {
        return kOps[ k ].name;
    }
    bool IsSmall( int k )
    {
        return kOps[ k ].small;
    }
    void Run( int k, int v, std::string& out )
    {
        kOps[ k ].run( v, out );
    }

    // One document that both threads only read.
    static StructuredData* shared;
    void                   MakeShared()
    {
        shared = new StructuredData;
        Parse( *shared, "{\"x\":1.5,\"s\":\"t\\u00e9\",\"a\":[1,2,3]}" );
    }
    void ReadShared( int k, int v, std::string& o )
    {
        const StructuredData& d = *shared;
        const Value*          r = d.GetRootJsonValue();
        if ( k == 0 )
        {
            T::S2 t;
            Put( o, "val", std::to_string( int( Validate( static_cast<const Value*>( d.GetRootJsonValue() ), t ) ) ) );
            Put( o, "des", std::to_string( int( Deserialize( r, t ) ) ) );
            Put( o, "x", std::to_string( t.x ) );
            Put( o, "s", static_cast<const char*>( t.s ) );
            for ( double y : t.a )
                Put( o, "a", std::to_string( y ) );
        }
        else
        {
            Dump( r, o );
            const ObjectValue* ob = r ? r->AsJsonObjectValue() : nullptr;
            for ( const char* n : { "s", "x", "y" } )
            {
                Put( o, n, "" );
                const Value* m = ob ? ob->FindMapElement( String<>( n ) ) : nullptr;
                Dump( m, o );
            }
        }
    }

    // Steps on one of several long-lived documents.
    struct Doc
    {
        StructuredData d;
        T::S2          val;
    };
    Doc* NewDoc()
    {
        return new Doc;
    }
    void FreeDoc( Doc* d )
    {
        delete d;
    }
    int StepCount()
    {
        return 10;
    }
    const char* StepName( int k )
    {
        static const char* const n[] = { "parse struct", "parse scalar", "parse same length", "parse bad", "parse file", "write", "serialize", "deserialize", "lookup", "renew" };
        return n[ k ];
    }
    void Step( Doc*& x, int k, int which, std::string& o )
    {
        StructuredData& d = x->d;
        std::string     f = std::string( "doc" ) + char( 'A' + which );
        switch ( k )
        {
            case 0: Put( o, "r", Txt( Parse( d, "{\"x\":1,\"s\":\"p\",\"a\":[5]}" ) ) ); break;
            case 1: Put( o, "r", Txt( Parse( d, which ? "2.5" : "1.5" ) ) ); break;
            case 2: Put( o, "r", Txt( Parse( d, which ? "{\"x\":3,\"s\":\"q\",\"a\":[6]}" : "{\"x\":2,\"s\":\"r\",\"b\":[7]}" ) ) ); break;
            case 3: Put( o, "r", Txt( Parse( d, which ? "[1,\n 2" : "{\"x\" 1}" ) ) ); break;
            case 4: Spill( f, which ? "{\"x\":9}" : "{\"x\":8}" ); Put( o, "r", Txt( d.Parse( f.c_str() ) ) ); break;
            case 5: Spill( f, "" ); Put( o, "w", std::to_string( int( d.Write( f.c_str(), 1, ' ' ) ) ) ); Put( o, "f", Slurp( f ) ); break;
            case 6: x->val.x += 1; Put( o, "ser", std::to_string( int( d.SerializeFrom( x->val ) ) ) ); break;
            case 7: if ( const Value* r = d.GetRootJsonValue() ) Put( o, "val", std::to_string( int( Validate( r, x->val ) ) ) ); Put( o, "des", std::to_string( int( d.DeserializeTo( x->val ) ) ) ); Put( o, "x", std::to_string( x->val.x ) ); Put( o, "s", static_cast<const char*>( x->val.s ) ); break;
            case 8: { Value* r = d.GetRootJsonValue(); ObjectValue* ob = r ? r->AsJsonObjectValue() : nullptr; Value* m = ob ? ob->FindMapElement( String<>( "x" ) ) : nullptr; Dump( m, o ); break; }
            case 9: delete x; x = new Doc; break;
        }
        Put( o, "doc", Dump( x->d ) );
    }
} // namespace ops
