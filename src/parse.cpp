// C01 (acceptance), C02 (values), C03 (errors): the real parser against the reference automaton on enumerated texts.
#include "fw.h"
#include "lib.h"
#include "texts.h"
#include "alloc.h"

using namespace lib;

static const std::set<Status>& Allowed( ref::Why w, const std::string& t, size_t pos )
{
    using S = Status;
    static const std::set<S> value = { S::kExpectedJsonValue }, key = { S::kExpectedBeginingDoubleQuotes, S::kExpectedJsonValue }, colon = { S::kExpectedColon },
                             top = { S::kExpectedEndOfFile }, arr = { S::kExpectedClosingSquareBracketsOrComma }, obj = { S::kExpectedClosingCurlyBracesOrComma },
                             strChar = { S::kStringIllegalChar }, strEnd = { S::kPrematureNullTerminator, S::kExpectedEndingDoubleQuotes }, esc = { S::kStringIllegalEscape },
                             escEnd = { S::kStringIllegalEscape, S::kPrematureNullTerminator, S::kExpectedEndingDoubleQuotes },
                             charEnd = { S::kStringIllegalChar, S::kPrematureNullTerminator, S::kExpectedEndingDoubleQuotes },
                             num = { S::kExpectedJsonValue, S::kFloatInvalid }, zero = { S::kNumbersCannotHaveLeadingZeros },
                             zeroBad = { S::kNumbersCannotHaveLeadingZeros, S::kExpectedJsonValue, S::kFloatInvalid },
                             lit = { S::kExpectedJsonValue, S::kExpectedTrueOrFalse, S::kExpectedNull }, depth = { S::kNestingTooDeep }, none = {};
    switch ( w )
    {
    case ref::Why::Value: return value;
    case ref::Why::Key: return key;
    case ref::Why::Colon: return colon;
    case ref::Why::AfterTop: return top;
    case ref::Why::AfterArr: return arr;
    case ref::Why::AfterObj: return obj;
    case ref::Why::StrChar: return strChar;
    case ref::Why::StrEnd: return pos > 0 && (unsigned char)t[ pos - 1 ] >= 0x80 ? charEnd : strEnd;
    case ref::Why::Escape: return esc;
    case ref::Why::EscapeEnd: return escEnd;
    case ref::Why::Number: return num;
    case ref::Why::LeadingZero:
    {
        // The rest of the number may be malformed as well; then either fault may be named.
        size_t i = pos;
        auto   digits = [ & ] { size_t b = i; while ( i < t.size() && t[ i ] >= '0' && t[ i ] <= '9' ) i++; return i != b; };
        digits();
        bool ok = true;
        if ( i < t.size() && t[ i ] == '.' )
        {
            i++;
            ok = digits();
        }
        if ( ok && i < t.size() && ( t[ i ] == 'e' || t[ i ] == 'E' ) )
        {
            i++;
            if ( i < t.size() && ( t[ i ] == '+' || t[ i ] == '-' ) )
                i++;
            ok = digits();
        }
        return ok ? zero : zeroBad;
    }
    case ref::Why::Literal: return lit;
    case ref::Why::Depth: return depth;
    default: return none;
    }
}

static bool Run( const std::string& text, std::string& why )
{
    ref::Verdict v = ref::Judge( text );
    if ( v.rawSurrogate )
        return true; // tolerated either way
    if ( text.empty() || text[ 0 ] == 0 )
    {
        // Nothing to parse: an error, without a position requirement.
        StructuredData sd;
        ParseResult    r = Parse( sd, text );
        if ( r.status == Status::kOk )
        {
            why = "an empty text was accepted";
            return false;
        }
        return true;
    }
#if PROP == 2
    if ( !v.ok )
        return true;
#elif PROP == 3
    if ( v.ok )
        return true;
#endif
    StructuredData sd;
    ParseResult    r  = Parse( sd, text );
    bool           ok = r.status == Status::kOk;
#if PROP == 1
    if ( ok != v.ok )
    {
        why = ok ? "accepted, but it is not a JSON text (first error at byte " + std::to_string( v.errPos ) + ")"
                 : "refused (" + StatusName( r.status ) + " at " + std::to_string( r.errorLine ) + ":" + std::to_string( r.errorColumn ) + "), but it is a JSON text";
        return false;
    }
    if ( ok && !sd.GetRootJsonValue() )
    {
        why = "accepted, but there is no document";
        return false;
    }
#elif PROP == 2
    if ( !ok )
        return true; // C01
    std::string problem;
    ref::Node   got = Tree( sd.GetRootJsonValue(), &problem ), want = ref::Build( text );
    ref::NormSurrogates( want );
    ref::NormSurrogates( got );
    if ( !ref::Equal( want, got, false ) )
    {
        why = "document differs: expected " + ref::Text( want ) + " got " + ( problem.empty() ? ref::Text( got ) : problem );
        return false;
    }
#elif PROP == 3
    if ( ok )
        return true; // C01
    size_t end = text.find( '\0' );
    std::string t = text.substr( 0, end );
    if ( !Allowed( v.why, t, v.errPos ).count( r.status ) )
    {
        why = "status \"" + StatusName( r.status ) + "\" does not name the error (class " + std::to_string( int( v.why ) ) + ") at byte " + std::to_string( v.errPos );
        return false;
    }
    bool found = false;
    int  line = 1, col = 1;
    for ( size_t i = 0; i <= v.errPos; i++ )
    {
        if ( i >= v.errTok && line == r.errorLine && col == r.errorColumn )
            found = true;
        if ( i < t.size() )
        {
            if ( t[ i ] == '\n' )
                line++, col = 1;
            else
                col++;
        }
    }
    if ( !found )
    {
        why = "position " + std::to_string( r.errorLine ) + ":" + std::to_string( r.errorColumn ) + " is not within bytes " + std::to_string( v.errTok ) + ".." +
              std::to_string( v.errPos );
        return false;
    }
    String<256> ds   = ParseResultToString( r );
    std::string desc = static_cast<const char*>( ds ), st = StatusName( r.status );
    size_t      at   = desc.find( st );
    std::string nums;
    if ( at != std::string::npos )
    {
        bool in = false;
        for ( size_t i = at + st.size(); i < desc.size(); i++ )
        {
            bool d = desc[ i ] >= '0' && desc[ i ] <= '9';
            if ( d )
                nums += ( in ? "" : " " ) + std::string( 1, desc[ i ] );
            in = d;
        }
    }
    if ( at == std::string::npos || nums != " " + std::to_string( r.errorLine ) + " " + std::to_string( r.errorColumn ) )
    {
        why = "description \"" + desc + "\" does not give status, line and column";
        return false;
    }
#endif
    return true;
}

static void Enumerate( fw::Engine& e )
{
    texts::Bounds q = { 8, 7, 6, 9, 8, 4, 6, 4, true, true, true, true, 400, 2048, 6 };
    texts::Bounds t = { 10, 8, 7, 11, 10, 5, 6, 5, true, true, true, true, 1500, 65536, 7 };
    texts::All( e, e.thorough ? t : q, [ & ]( const std::string& s ) { e.check( s ); } );
}

int main( int argc, char** argv )
{
    return fw::Main( argc, argv, Enumerate, Run );
}
