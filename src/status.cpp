// C21: the descriptions of statuses and parse results.
#include "fw.h"
#include "types.h"
#include "texts.h"
#include <climits>

using namespace lib;

// What the description of each status has to speak of (each group: one of the words separated by |), and not.
struct Meaning
{
    Status                   s;
    const char*              name;
    std::vector<const char*> words, not_;
};
static const std::vector<Meaning>& Meanings()
{
    using S = Status;
    static const std::vector<Meaning> m = {
        { S::kOk, "kOk", { "ok|success" }, { "not", "error", "expected", "invalid" } },
        { S::KFileOpenError, "KFileOpenError", { "file", "open" }, { "read", "write", "large" } },
        { S::KFileReadError, "KFileReadError", { "file", "read" }, { "open", "write", "large" } },
        { S::KFileTooLarge, "KFileTooLarge", { "file", "large|big|long" }, { "open", "write", "read" } },
        { S::kTextBufferContentsInvalid, "kTextBufferContentsInvalid", { "invalid", "text|buffer" }, { "number" } },
        { S::kUnterminatedTextBuffer, "kUnterminatedTextBuffer", { "terminat", "buffer|text" }, {} },
        { S::kExpectedOpeningCurlyBraces, "kExpectedOpeningCurlyBraces", { "expected", "opening", "curly|{" }, { "square", "clos" } },
        { S::kExpectedClosingCurlyBracesOrComma, "kExpectedClosingCurlyBracesOrComma", { "expected", "clos", "curly|}", "comma" }, { "square", "open" } },
        { S::kExpectedOpeningSquareBrackets, "kExpectedOpeningSquareBrackets", { "expected", "opening", "square|[" }, { "curly", "clos" } },
        { S::kExpectedClosingSquareBracketsOrComma, "kExpectedClosingSquareBracketsOrComma", { "expected", "clos", "square|]", "comma" }, { "curly", "open" } },
        { S::kStringIllegalChar, "kStringIllegalChar", { "illegal", "char" }, { "escape" } },
        { S::kStringIllegalEscape, "kStringIllegalEscape", { "illegal", "escape" }, {} },
        { S::kExpectedColon, "kExpectedColon", { "expected", "colon" }, { "quote" } },
        { S::kExpectedBeginingDoubleQuotes, "kExpectedBeginingDoubleQuotes", { "expected", "begin|open|start", "quote" }, { "ending", "clos" } },
        { S::kExpectedEndingDoubleQuotes, "kExpectedEndingDoubleQuotes", { "expected", "end|clos", "quote" }, { "begin", "open" } },
        { S::kFloatInvalid, "kFloatInvalid", { "invalid", "number|float" }, { "zero" } },
        { S::kExpectedTrueOrFalse, "kExpectedTrueOrFalse", { "expected", "true", "false" }, { "null" } },
        { S::kExpectedNull, "kExpectedNull", { "expected", "null" }, { "true", "false" } },
        { S::kExpectedJsonValue, "kExpectedJsonValue", { "expected", "value" }, {} },
        { S::kExpectedEndOfFile, "kExpectedEndOfFile", { "expected", "end", "file|text" }, { "quote" } },
        { S::kPrematureNullTerminator, "kPrematureNullTerminator", { "premature|early|unexpected" }, {} },
        { S::kNumbersCannotHaveLeadingZeros, "kNumbersCannotHaveLeadingZeros", { "number", "leading", "zero" }, {} },
        { S::kInvalidStructuredData, "kInvalidStructuredData", { "struct", "invalid" }, { "type" } },
        { S::kMissingObjectElement, "kMissingObjectElement", { "not found|missing", "object|element|pair" }, {} },
        { S::kException, "kException", { "exception" }, {} },
        { S::kInvalidValueType, "kInvalidValueType", { "invalid", "type" }, {} },
        { S::kNameNotPresent, "kNameNotPresent", { "name", "not" }, {} },
        { S::KFileWriteError, "KFileWriteError", { "file", "writ" }, { "open", "read", "large" } },
        { S::kNestingTooDeep, "kNestingTooDeep", { "nest", "deep" }, {} },
    };
    return m;
}

static std::string Lower( std::string s )
{
    for ( char& c : s )
        c = char( tolower( (unsigned char)c ) );
    return s;
}
static bool Has( const std::string& s, const std::string& alternatives )
{
    for ( size_t p = 0; p <= alternatives.size(); )
    {
        size_t q = alternatives.find( '|', p );
        if ( q == std::string::npos )
            q = alternatives.size();
        if ( s.find( alternatives.substr( p, q - p ) ) != std::string::npos )
            return true;
        p = q + 1;
    }
    return false;
}

static bool Describes( const std::string& desc, const Meaning& m, std::string& why )
{
    std::string d = Lower( desc );
    if ( d.empty() || d.size() > 255 )
    {
        why = std::string( m.name ) + " has a description of " + std::to_string( d.size() ) + " characters";
        return false;
    }
    for ( char c : desc )
        if ( (unsigned char)c < 32 )
        {
            why = std::string( m.name ) + " has control characters in its description";
            return false;
        }
    for ( const char* w : m.words )
        if ( !Has( d, w ) )
        {
            why = std::string( m.name ) + " is described as \"" + desc + "\", which does not speak of " + w;
            return false;
        }
    for ( const char* w : m.not_ )
        if ( Has( d, w ) )
        {
            why = std::string( m.name ) + " is described as \"" + desc + "\", which speaks of " + w;
            return false;
        }
    return true;
}

static const Meaning* Find( Status s )
{
    for ( auto& m : Meanings() )
        if ( m.s == s )
            return &m;
    return nullptr;
}

// The description of a result: that of the status, then line and column if they are known.
static bool Result( const ParseResult& r, std::string& why )
{
    String<256> t    = ParseResultToString( r );
    std::string d    = static_cast<const char*>( t ), s = StatusName( r.status );
    size_t      at   = d.find( s );
    std::string nums, rest = at == std::string::npos ? "" : d.substr( 0, at ) + d.substr( at + s.size() );
    for ( size_t i = 0; i < rest.size(); i++ )
        if ( isdigit( (unsigned char)rest[ i ] ) || ( rest[ i ] == '-' && i + 1 < rest.size() && isdigit( (unsigned char)rest[ i + 1 ] ) ) )
        {
            nums += " ";
            do
                nums += rest[ i++ ];
            while ( i < rest.size() && isdigit( (unsigned char)rest[ i ] ) );
        }
    std::string want = r.errorLine ? " " + std::to_string( r.errorLine ) + " " + std::to_string( r.errorColumn ) : "";
    if ( at == std::string::npos || nums != want )
    {
        why = "status " + std::to_string( unsigned( r.status ) ) + " at " + std::to_string( r.errorLine ) + ":" + std::to_string( r.errorColumn ) + " is described as \"" + d + "\"";
        return false;
    }
    if ( !r.errorLine && d != s )
    {
        why = "without a position the description of the result is \"" + d + "\", that of the status \"" + s + "\"";
        return false;
    }
    return true;
}

// Situations that provoke statuses.
struct Situation
{
    const char*                            name;
    std::function<ParseResult( void )>     go;
};
struct Two
{
    double  number = 0;
    String<> text;
};
#define TWO "number", object.number, "text", object.text
namespace C4 { namespace Json {
DEFINE_JSON4C4_FUNCTIONS( Two, TWO )
} }

static ParseResult Buf( const std::string& s )
{
    StructuredData sd;
    return Parse( sd, s );
}
static ParseResult Typed( const std::string& s )
{
    StructuredData sd;
    ParseResult    r = Parse( sd, s );
    Two            t;
    if ( r.status == Status::kOk )
        r.status = sd.DeserializeTo( t );
    return r;
}
static const std::vector<Situation>& Situations()
{
    using S = Status;
    static std::string deep = std::string( 3000, '[' );
    static const std::vector<Situation> s = {
        { "a document", [] { return Buf( "{\"a\":[1,\"x\",null]}" ); } },
        { "no colon", [] { return Buf( "{\"a\" 1}" ); } },
        { "no comma in an object", [] { return Buf( "{\"a\":1 \"b\":2}" ); } },
        { "no comma in an array", [] { return Buf( "[1 2]" ); } },
        { "a control character", [] { return Buf( "[\"a\x01\"]" ); } },
        { "an unknown escape", [] { return Buf( "[\"\\q\"]" ); } },
        { "a name without quotes", [] { return Buf( "{a:1}" ); } },
        { "tru", [] { return Buf( "[tru]" ); } },
        { "nul", [] { return Buf( "[nul]" ); } },
        { "no value", [] { return Buf( "[,]" ); } },
        { "two values", [] { return Buf( "[] []" ); } },
        { "leading zero", [] { return Buf( "[01]" ); } },
        { "a bad number", [] { return Buf( "[1.x]" ); } },
        { "too deep", [] { return Buf( deep ); } },
        { "nothing", [] { return Buf( "" ); } },
        { "no terminator", [] { StructuredData sd; Array<char> a; Fill( a, "[1]", false ); return sd.Parse( a ); } },
        { "no file", [] { StructuredData sd; return sd.Parse( "no such file" ); } },
        { "a directory", [] { StructuredData sd; return sd.Parse( "." ); } },
        { "writing nowhere", [] { StructuredData sd; ParseResult r; Parse( sd, "[]" ); r.status = sd.Write( "no such directory/x" ); return r; } },
        { "writing to a full device", [] { StructuredData sd; ParseResult r; Parse( sd, "[]" ); r.status = sd.Write( "/dev/full" ); return r; } },
        { "writing infinity", [] { StructuredData sd; ParseResult r; Parse( sd, "[1e999]" ); r.status = sd.Write( "inf.json" ); return r; } },
        { "no document to deserialize", [] { StructuredData sd; ParseResult r; Two t; r.status = sd.DeserializeTo( t ); return r; } },
        { "a member of another type", [] { return Typed( "{\"number\":true,\"text\":\"\"}" ); } },
        { "a missing member", [] { return Typed( "{\"number\":1}" ); } },
        { "not an object", [] { return Typed( "[1]" ); } },
        { "a large file", [] { FILE* f = fopen( "large", "w" ); fprintf( f, "[1%70000s]", "" ); fclose( f ); StructuredData sd; return sd.Parse( "large" ); } },
    };
    return s;
}

// Case: 'S' status | 'R' status line column | 'E' situation | 'T' text
static bool Run( const std::string& c, std::string& why )
{
    switch ( c[ 0 ] )
    {
        case 'S':
        {
            const Meaning& m = Meanings()[ uint8_t( c[ 1 ] ) ];
            std::string    d = StatusName( m.s );
            if ( !Describes( d, m, why ) )
                return false;
            for ( auto& o : Meanings() )
                if ( o.s != m.s && StatusName( o.s ) == d )
                {
                    why = std::string( m.name ) + " and " + o.name + " are described alike: \"" + d + "\"";
                    return false;
                }
            if ( StatusName( m.s ) != d )
            {
                why = "the description changes from call to call";
                return false;
            }
            return true;
        }
        case 'R':
        {
            ParseResult r;
            r.status = Meanings()[ uint8_t( c[ 1 ] ) ].s;
            memcpy( &r.errorLine, c.data() + 2, 4 );
            memcpy( &r.errorColumn, c.data() + 6, 4 );
            return Result( r, why );
        }
        case 'E':
        {
            const Situation& s = Situations()[ uint8_t( c[ 1 ] ) ];
            ParseResult      r = s.go();
            // Which status a situation gets is judged elsewhere (C03, C05, C08-C10); here, that it has its own description.
            const Meaning* m = Find( r.status );
            return ( !m || Describes( StatusName( r.status ), *m, why ) ) && Result( r, why );
        }
        case 'T':
        {
            StructuredData sd;
            ParseResult    r = Parse( sd, c.substr( 1 ) );
            const Meaning* m = Find( r.status );
            return ( !m || Describes( StatusName( r.status ), *m, why ) ) && Result( r, why );
        }
    }
    return true;
}

static std::string Show( const std::string& c )
{
    if ( c[ 0 ] == 'S' )
        return std::string( "status " ) + Meanings()[ uint8_t( c[ 1 ] ) ].name;
    if ( c[ 0 ] == 'E' )
        return std::string( "situation " ) + Situations()[ uint8_t( c[ 1 ] ) ].name;
    if ( c[ 0 ] == 'R' )
    {
        int32_t l, k;
        memcpy( &l, c.data() + 2, 4 );
        memcpy( &k, c.data() + 6, 4 );
        return std::string( "result " ) + Meanings()[ uint8_t( c[ 1 ] ) ].name + " " + std::to_string( l ) + " " + std::to_string( k );
    }
    return "text " + fw::Show( c.substr( 1 ) );
}

static void Enumerate( fw::Engine& e )
{
    bool th = e.thorough;
    e.phase( "statuses", Meanings().size(), [ & ]( uint64_t u ) { e.check( std::string( "S" ) + char( u ) ); e.step( Meanings().size() ); e.state( u + 1 ); } );
    e.phase( "situations", Situations().size(), [ & ]( uint64_t u ) { e.check( std::string( "E" ) + char( u ) ); e.step(); e.state( 1000 + u ); } );
    std::vector<int32_t> v;
    for ( int i = 1; i <= ( th ? 2000 : 300 ); i++ )
        v.push_back( i );
    for ( int64_t p = 1; p <= INT_MAX; p *= 10 )
        for ( int64_t d = -2; d <= 2; d++ )
            v.push_back( int32_t( p + d > 0 ? p + d : 1 ) );
    for ( int b = 8; b < 31; b++ )
        v.push_back( ( 1 << b ) - 1 ), v.push_back( 1 << b );
    for ( int64_t p = 1; p <= INT_MAX; p = p * 10 + 1 )
        for ( int64_t d = 1; d < 10 && p * d <= INT_MAX; d++ )
            v.push_back( int32_t( p * d ) );
    v.push_back( INT_MAX );
    v.push_back( INT_MAX - 1 );
    e.phase( "results", v.size(),
             [ & ]( uint64_t u )
             {
                 for ( size_t s = 0; s < Meanings().size(); s++ )
                 {
                     if ( Meanings()[ s ].s == Status::kException )
                         continue; // no position belongs to it
                     auto one = [ & ]( int32_t l, int32_t c )
                     {
                         std::string k = std::string( "R" ) + char( s ) + std::string( 8, 0 );
                         memcpy( &k[ 2 ], &l, 4 );
                         memcpy( &k[ 6 ], &c, 4 );
                         e.check( k );
                         e.step();
                         e.state( fw::HashStr( k ) );
                     };
                     if ( u == 0 )
                         one( 0, 0 );
                     for ( int32_t c : v )
                         if ( th || c > 100000 || c < 30 || s % 7 == u % 7 )
                             one( v[ u ], c );
                 }
             } );
    texts::Bounds q = { 6, 5, 4, 7, 6, 3, 5, 3, false, false, false, true, 300, 2048, 4 };
    texts::Bounds t = { 8, 7, 5, 9, 8, 4, 6, 4, false, false, true, true, 600, 65536, 5 };
    texts::All( e, th ? t : q, [ & ]( const std::string& s ) { e.check( "T" + s ); e.step(); } );
}

int main( int argc, char** argv )
{
    return fw::Main( argc, argv, Enumerate, Run, Show );
}
