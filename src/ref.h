// Reference model of JSON texts (RFC 8259), written independently of the library: a byte-level pushdown automaton
// (acceptance, first error, error class) and a tree builder for accepted texts.
#pragma once
#include <charconv>
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace ref
{
    constexpr size_t kMaxDepth = 1024;

    enum St : uint8_t
    {
        VALUE,     // a value is required (start of text, after ',' in an array, after ':')
        ARR_FIRST, // after '[': value or ']'
        OBJ_FIRST, // after '{': name or '}'
        OBJ_KEY,   // after ',' in an object: name
        COLON,
        AFTER, // a value is complete
        STR,
        ESC,
        U1,
        U2,
        U3,
        U4,
        C1,   // one more UTF-8 continuation byte 80..BF
        C2,   // two more
        C3,   // three more
        C2E0, // after E0: A0..BF then one
        C2ED, // after ED: 80..9F then one (A0..BF is an encoded surrogate: tolerated, see rawSurrogate)
        C3F0, // after F0: 90..BF then two
        C3F4, // after F4: 80..8F then two
        MINUS,
        ZERO,
        INT,
        DOT,
        FRAC,
        EXP,
        ESIGN,
        EDIG,
        LIT, // inside true/false/null
        ERR
    };

    enum class Why : uint8_t
    {
        None,
        Value,
        Key,
        Colon,
        AfterTop,
        AfterArr,
        AfterObj,
        StrChar,
        StrEnd,
        Escape,
        EscapeEnd,
        Number,
        LeadingZero,
        Literal,
        Depth
    };

    struct Auto
    {
        St          st = VALUE;
        bool        key = false; // the string being read is a member name
        const char* lit = "";
        uint32_t    code = 0;     // value of the \u escape being read
        size_t      pos = 0, tok = 0; // bytes consumed; start of the token being read
        std::string stack;            // '[' and '{'
        bool        rawSurrogate = false;
        bool        loneOrNone   = false;
        Why         why          = Why::None;
        size_t      errPos = 0, errTok = 0;

        bool dead() const
        {
            return st == ERR;
        }

        uint64_t config() const
        {
            uint64_t h = 1469598103934665603ULL;
            auto     m = [ & ]( uint64_t x ) { h = ( h ^ x ) * 1099511628211ULL; h ^= h >> 29; };
            m( st );
            m( key );
            m( st >= U1 && st <= U4 ? ( code == 0 ? 1 : 2 ) : 0 );
            m( st == LIT ? uint64_t( lit[ 0 ] ) * 256 + uint64_t( strlen( lit ) ) : 0 );
            for ( char c : stack )
                m( uint64_t( c ) );
            return h ? h : 1;
        }

        void fail( Why w, size_t token )
        {
            st     = ERR;
            why    = w;
            errPos = pos;
            errTok = token;
        }

        static bool ws( unsigned char c )
        {
            return c == ' ' || c == '\t' || c == '\n' || c == '\r';
        }

        bool numComplete() const
        {
            return st == ZERO || st == INT || st == FRAC || st == EDIG;
        }

        bool accepting() const
        {
            return stack.empty() && ( st == AFTER || numComplete() );
        }

        void beginValue( unsigned char c )
        {
            tok = pos;
            switch ( c )
            {
            case '"':
                st  = STR;
                key = false;
                break;
            case '-': st = MINUS; break;
            case '0': st = ZERO; break;
            case 't':
                st  = LIT;
                lit = "rue";
                break;
            case 'f':
                st  = LIT;
                lit = "alse";
                break;
            case 'n':
                st  = LIT;
                lit = "ull";
                break;
            case '[':
            case '{':
                if ( stack.size() >= kMaxDepth )
                    fail( Why::Depth, pos );
                else
                {
                    stack += char( c );
                    st = c == '[' ? ARR_FIRST : OBJ_FIRST;
                }
                break;
            default:
                if ( c >= '1' && c <= '9' )
                    st = INT;
                else
                    fail( Why::Value, pos );
            }
        }

        // Feed one byte; the end of the text is fed as 0.
        void feed( unsigned char c )
        {
            if ( st == ERR )
                return;
            step( c );
            if ( st != ERR )
                pos++;
        }

        void after( unsigned char c )
        {
            st = AFTER;
            if ( ws( c ) )
                return;
            if ( stack.empty() )
                return fail( Why::AfterTop, pos );
            bool arr = stack.back() == '[';
            if ( c == ',' )
                st = arr ? VALUE : OBJ_KEY;
            else if ( c == ( arr ? ']' : '}' ) )
                stack.pop_back();
            else
                fail( arr ? Why::AfterArr : Why::AfterObj, pos );
        }

        void step( unsigned char c )
        {
            switch ( st )
            {
            case VALUE:
                if ( !ws( c ) )
                    beginValue( c );
                return;
            case ARR_FIRST:
                if ( ws( c ) )
                    return;
                if ( c == ']' )
                {
                    stack.pop_back();
                    st = AFTER;
                    return;
                }
                return beginValue( c );
            case OBJ_FIRST:
            case OBJ_KEY:
                if ( ws( c ) )
                    return;
                if ( c == '}' && st == OBJ_FIRST )
                {
                    stack.pop_back();
                    st = AFTER;
                    return;
                }
                if ( c == '"' )
                {
                    tok = pos;
                    st  = STR;
                    key = true;
                    return;
                }
                return fail( Why::Key, pos );
            case COLON:
                if ( ws( c ) )
                    return;
                if ( c == ':' )
                {
                    st = VALUE;
                    return;
                }
                return fail( Why::Colon, pos );
            case AFTER: return after( c );
            case STR:
                if ( c == '"' )
                    st = key ? COLON : AFTER;
                else if ( c == '\\' )
                    st = ESC;
                else if ( c == 0 )
                    fail( Why::StrEnd, tok );
                else if ( c < 0x20 )
                    fail( Why::StrChar, tok );
                else if ( c < 0x80 )
                    ;
                else if ( c >= 0xC2 && c <= 0xDF )
                    st = C1;
                else if ( c == 0xE0 )
                    st = C2E0;
                else if ( c == 0xED )
                    st = C2ED;
                else if ( c >= 0xE1 && c <= 0xEF )
                    st = C2;
                else if ( c == 0xF0 )
                    st = C3F0;
                else if ( c >= 0xF1 && c <= 0xF3 )
                    st = C3;
                else if ( c == 0xF4 )
                    st = C3F4;
                else
                    fail( Why::StrChar, tok );
                return;
            case C1: return cont( c, 0x80, 0xBF, STR );
            case C2: return cont( c, 0x80, 0xBF, C1 );
            case C3: return cont( c, 0x80, 0xBF, C2 );
            case C2E0: return cont( c, 0xA0, 0xBF, C1 );
            case C2ED:
                if ( c >= 0xA0 && c <= 0xBF )
                    rawSurrogate = true;
                return cont( c, 0x80, 0xBF, C1 );
            case C3F0: return cont( c, 0x90, 0xBF, C2 );
            case C3F4: return cont( c, 0x80, 0x8F, C2 );
            case ESC:
                if ( c == 'u' )
                {
                    st   = U1;
                    code = 0;
                }
                else if ( c && strchr( "\"\\/bfnrt", c ) )
                    st = STR;
                else
                    fail( c ? Why::Escape : Why::EscapeEnd, tok );
                return;
            case U1:
            case U2:
            case U3:
            case U4:
            {
                int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
                if ( d < 0 )
                    return fail( c ? Why::Escape : Why::EscapeEnd, tok );
                code = code * 16 + uint32_t( d );
                if ( st == U4 )
                {
                    if ( code == 0 )
                        return fail( Why::Escape, tok );
                    st = STR;
                }
                else
                    st = St( st + 1 );
                return;
            }
            case MINUS:
                if ( c == '0' )
                    st = ZERO;
                else if ( c >= '1' && c <= '9' )
                    st = INT;
                else
                    fail( Why::Number, tok );
                return;
            case ZERO:
            case INT:
            case FRAC:
            case EDIG:
                if ( c >= '0' && c <= '9' )
                {
                    if ( st == ZERO )
                        fail( Why::LeadingZero, tok );
                    return;
                }
                if ( c == '.' && ( st == ZERO || st == INT ) )
                {
                    st = DOT;
                    return;
                }
                if ( ( c == 'e' || c == 'E' ) && st != EDIG )
                {
                    st = EXP;
                    return;
                }
                return after( c );
            case DOT:
                if ( c >= '0' && c <= '9' )
                    st = FRAC;
                else
                    fail( Why::Number, tok );
                return;
            case EXP:
                if ( c == '+' || c == '-' )
                {
                    st = ESIGN;
                    return;
                } // fallthrough
            case ESIGN:
                if ( c >= '0' && c <= '9' )
                    st = EDIG;
                else
                    fail( Why::Number, tok );
                return;
            case LIT:
                if ( c == (unsigned char)*lit )
                {
                    if ( !*++lit )
                        st = AFTER;
                }
                else
                    fail( Why::Literal, tok );
                return;
            case ERR: return;
            }
        }

        void cont( unsigned char c, unsigned lo, unsigned hi, St next )
        {
            if ( c >= lo && c <= hi )
                st = next;
            else
                fail( c ? Why::StrChar : Why::StrEnd, tok );
        }

        // Bytes that complete the text from here, if alive.
        std::string completion() const
        {
            std::string r;
            switch ( st )
            {
            case VALUE: r = "1"; break;
            case ARR_FIRST: break;
            case OBJ_FIRST: break;
            case OBJ_KEY: r = "\"k\":1"; break;
            case COLON: r = ":1"; break;
            case ESC: r = "n"; break;
            case U1: r = "1234"; break;
            case U2: r = "123"; break;
            case U3: r = "12"; break;
            case U4: r = "1"; break;
            case C1: r = "\x80"; break;
            case C2: r = "\x80\x80"; break;
            case C3: r = "\x80\x80\x80"; break;
            case C2E0: r = "\xA0\x80"; break;
            case C2ED: r = "\x80\x80"; break;
            case C3F0: r = "\x90\x80\x80"; break;
            case C3F4: r = "\x80\x80\x80"; break;
            case MINUS:
            case DOT:
            case EXP:
            case ESIGN: r = "1"; break;
            case LIT: r = lit; break;
            default: break;
            }
            bool inString = st == STR || st == ESC || ( st >= U1 && st <= C3F4 );
            if ( inString )
                r += key ? "\":1" : "\"";
            for ( size_t i = stack.size(); i-- > 0; )
                r += stack[ i ] == '[' ? ']' : '}';
            return r;
        }
    };

    struct Verdict
    {
        bool   ok           = false;
        bool   rawSurrogate = false; // the text has an encoded surrogate before its end or first error: verdict is "tolerated"
        Why    why          = Why::None;
        size_t errPos = 0, errTok = 0;
    };

    // The text up to its first null byte.
    inline Verdict Judge( const std::string& full )
    {
        Auto   a;
        size_t n = full.find( '\0' );
        if ( n == std::string::npos )
            n = full.size();
        for ( size_t i = 0; i < n && !a.dead(); i++ )
            a.feed( (unsigned char)full[ i ] );
        Verdict v;
        if ( !a.dead() )
        {
            if ( a.accepting() )
            {
                v.ok           = true;
                v.rawSurrogate = a.rawSurrogate;
                return v;
            }
            a.feed( 0 );
            if ( !a.dead() ) // AFTER within a container does not accept 0; every state fails on 0
                a.fail( Why::Value, a.pos );
        }
        v.rawSurrogate = a.rawSurrogate;
        v.why          = a.why;
        v.errPos       = a.errPos;
        v.errTok       = a.errTok;
        return v;
    }

    struct Node
    {
        enum Kind : uint8_t
        {
            Null,
            Bool,
            Num,
            Str,
            Arr,
            Obj,
            Bad
        } k    = Null;
        bool        b = false;
        double      d = 0;
        std::string s;
        std::vector<Node>                         a;
        std::vector<std::pair<std::string, Node>> o; // insertion order; first of equal names wins

        static Node MkNull()
        {
            return Node();
        }
        static Node MkBool( bool v )
        {
            Node n;
            n.k = Bool;
            n.b = v;
            return n;
        }
        static Node MkNum( double v )
        {
            Node n;
            n.k = Num;
            n.d = v;
            return n;
        }
        static Node MkStr( std::string v )
        {
            Node n;
            n.k = Str;
            n.s = std::move( v );
            return n;
        }
        static Node MkArr()
        {
            Node n;
            n.k = Arr;
            return n;
        }
        static Node MkObj()
        {
            Node n;
            n.k = Obj;
            return n;
        }
        const Node* get( const std::string& name ) const
        {
            for ( auto& p : o )
                if ( p.first == name )
                    return &p.second;
            return nullptr;
        }
        Node& set( const std::string& name, Node v )
        {
            o.emplace_back( name, std::move( v ) );
            return *this;
        }
    };

    inline uint64_t Bits( double d )
    {
        uint64_t u;
        memcpy( &u, &d, 8 );
        return u;
    }

    // Equality of documents; member order only if asked for.
    inline bool Equal( const Node& x, const Node& y, bool ordered )
    {
        if ( x.k != y.k )
            return false;
        switch ( x.k )
        {
        case Node::Bool: return x.b == y.b;
        case Node::Num: return Bits( x.d ) == Bits( y.d );
        case Node::Str: return x.s == y.s;
        case Node::Arr:
            if ( x.a.size() != y.a.size() )
                return false;
            for ( size_t i = 0; i < x.a.size(); i++ )
                if ( !Equal( x.a[ i ], y.a[ i ], ordered ) )
                    return false;
            return true;
        case Node::Obj:
            if ( x.o.size() != y.o.size() )
                return false;
            if ( !ordered && x.o.size() > 100 )
            {
                std::unordered_map<std::string, const Node*> m;
                for ( auto& p : y.o )
                    m.emplace( p.first, &p.second );
                for ( auto& p : x.o )
                {
                    auto it = m.find( p.first );
                    if ( it == m.end() || !Equal( p.second, *it->second, false ) )
                        return false;
                }
                return true;
            }
            for ( size_t i = 0; i < x.o.size(); i++ )
            {
                if ( ordered )
                {
                    if ( x.o[ i ].first != y.o[ i ].first || !Equal( x.o[ i ].second, y.o[ i ].second, true ) )
                        return false;
                }
                else
                {
                    const Node* n = i < y.o.size() && y.o[ i ].first == x.o[ i ].first ? &y.o[ i ].second : y.get( x.o[ i ].first );
                    if ( !n || !Equal( x.o[ i ].second, *n, false ) )
                        return false;
                }
            }
            return true;
        default: return true;
        }
    }

    inline double RefNumber( const char* b, const char* e )
    {
        double      v   = 0;
        bool        neg = b != e && *b == '-';
        auto        r   = std::from_chars( b, e, v );
        if ( r.ec == std::errc::result_out_of_range )
        {
            // Decimal exponent of the leading non-zero digit decides between overflow and underflow.
            const char* p    = b + neg;
            long        exp  = 0, pt = 0;
            bool        seen = false, dot = false;
            for ( ; p != e && *p != 'e' && *p != 'E'; p++ )
            {
                if ( *p == '.' )
                    dot = true;
                else if ( seen )
                    pt += !dot;
                else if ( *p != '0' )
                {
                    seen = true;
                    if ( dot )
                        pt--;
                }
                else if ( dot )
                    pt--;
            }
            if ( p != e )
            {
                bool en = p[ 1 ] == '-';
                p += 1 + ( p[ 1 ] == '-' || p[ 1 ] == '+' );
                for ( ; p != e; p++ )
                    exp = exp > 100000000 ? exp : exp * 10 + ( *p - '0' );
                if ( en )
                    exp = -exp;
            }
            v = exp + pt > 0 ? __builtin_huge_val() : 0.0;
            if ( neg )
                v = -v;
        }
        return v;
    }

    inline void PutUtf8( std::string& s, uint32_t c )
    {
        if ( c < 0x80 )
            s += char( c );
        else if ( c < 0x800 )
        {
            s += char( 0xC0 | c >> 6 );
            s += char( 0x80 | ( c & 63 ) );
        }
        else if ( c < 0x10000 )
        {
            s += char( 0xE0 | c >> 12 );
            s += char( 0x80 | ( c >> 6 & 63 ) );
            s += char( 0x80 | ( c & 63 ) );
        }
        else
        {
            s += char( 0xF0 | c >> 18 );
            s += char( 0x80 | ( c >> 12 & 63 ) );
            s += char( 0x80 | ( c >> 6 & 63 ) );
            s += char( 0x80 | ( c & 63 ) );
        }
    }

    // Tree of a text that the automaton accepted.
    class Builder
    {
        const char* p;
        const char* e;

        void ws()
        {
            while ( p != e && Auto::ws( (unsigned char)*p ) )
                p++;
        }
        static uint32_t hex4( const char* q )
        {
            uint32_t v = 0;
            for ( int i = 0; i < 4; i++ )
            {
                char c = q[ i ];
                v      = v * 16 + uint32_t( c <= '9' ? c - '0' : ( c | 32 ) - 'a' + 10 );
            }
            return v;
        }
        std::string str()
        {
            std::string s;
            p++;
            while ( *p != '"' )
            {
                if ( *p != '\\' )
                {
                    s += *p++;
                    continue;
                }
                p++;
                char c = *p++;
                switch ( c )
                {
                case 'b': s += '\b'; break;
                case 'f': s += '\f'; break;
                case 'n': s += '\n'; break;
                case 'r': s += '\r'; break;
                case 't': s += '\t'; break;
                case 'u':
                {
                    uint32_t u = hex4( p );
                    p += 4;
                    if ( u >= 0xD800 && u < 0xDC00 && p[ 0 ] == '\\' && p[ 1 ] == 'u' )
                    {
                        uint32_t l = hex4( p + 2 );
                        if ( l >= 0xDC00 && l < 0xE000 )
                        {
                            u = 0x10000 + ( ( u - 0xD800 ) << 10 ) + ( l - 0xDC00 );
                            p += 6;
                        }
                    }
                    PutUtf8( s, u );
                    break;
                }
                default: s += c;
                }
            }
            p++;
            return s;
        }

    public:
        Builder( const char* b, const char* end ) : p( b ), e( end ) {}
        Node value()
        {
            Node n;
            ws();
            switch ( *p )
            {
            case '"':
                n.k = Node::Str;
                n.s = str();
                break;
            case 't':
                n = Node::MkBool( true );
                p += 4;
                break;
            case 'f':
                n = Node::MkBool( false );
                p += 5;
                break;
            case 'n': p += 4; break;
            case '[':
                n.k = Node::Arr;
                p++;
                ws();
                while ( *p != ']' )
                {
                    n.a.push_back( value() );
                    ws();
                    if ( *p == ',' )
                        p++;
                }
                p++;
                break;
            case '{':
            {
                n.k = Node::Obj;
                p++;
                ws();
                std::unordered_set<std::string> many; // the names, once there are many
                while ( *p != '}' )
                {
                    ws();
                    std::string k = str();
                    ws();
                    p++;
                    Node v = value();
                    if ( n.o.size() == 100 && many.empty() )
                        for ( auto& x : n.o )
                            many.insert( x.first );
                    if ( many.empty() ? !n.get( k ) : many.insert( k ).second )
                        n.o.emplace_back( std::move( k ), std::move( v ) );
                    ws();
                    if ( *p == ',' )
                        p++;
                }
                p++;
                break;
            }
            default:
            {
                const char* b = p;
                while ( p != e && ( ( *p >= '0' && *p <= '9' ) || *p == '-' || *p == '+' || *p == '.' || *p == 'e' || *p == 'E' ) )
                    p++;
                n = Node::MkNum( RefNumber( b, p ) );
            }
            }
            return n;
        }
    };

    inline Node Build( const std::string& full )
    {
        size_t n = full.find( '\0' );
        if ( n == std::string::npos )
            n = full.size();
        std::string t = full.substr( 0, n ) + std::string( 8, '\0' );
        Builder     b( t.data(), t.data() + n );
        return b.value();
    }

    // Encoded surrogates and U+FFFD are treated alike where a text has unpaired surrogate escapes.
    inline std::string NormSurrogates( const std::string& s )
    {
        std::string o;
        for ( size_t i = 0; i < s.size(); i++ )
        {
            if ( (unsigned char)s[ i ] == 0xED && i + 2 < s.size() && (unsigned char)s[ i + 1 ] >= 0xA0 )
            {
                o += "\xEF\xBF\xBD";
                i += 2;
            }
            else
                o += s[ i ];
        }
        return o;
    }

    inline void NormSurrogates( Node& n )
    {
        if ( n.s.find( '\xED' ) != std::string::npos )
            n.s = NormSurrogates( n.s );
        for ( auto& x : n.a )
            NormSurrogates( x );
        for ( auto& x : n.o )
        {
            if ( x.first.find( '\xED' ) != std::string::npos )
                x.first = NormSurrogates( x.first );
            NormSurrogates( x.second );
        }
    }

    // Compact JSON text of a document, without library code.
    inline void Quote( std::string& o, const std::string& s )
    {
        o += '"';
        for ( char ch : s )
        {
            unsigned char c = (unsigned char)ch;
            if ( c == '"' || c == '\\' )
            {
                o += '\\';
                o += ch;
            }
            else if ( c < 32 )
            {
                char b[ 8 ];
                snprintf( b, sizeof b, "\\u%04x", c );
                o += b;
            }
            else
                o += ch;
        }
        o += '"';
    }

    inline std::string NumText( double d )
    {
        char b[ 64 ];
        auto r = std::to_chars( b, b + 64, d );
        return std::string( b, r.ptr );
    }

    inline void ToText( std::string& o, const Node& n )
    {
        switch ( n.k )
        {
        case Node::Null: o += "null"; break;
        case Node::Bool: o += n.b ? "true" : "false"; break;
        case Node::Num: o += NumText( n.d ); break;
        case Node::Str: Quote( o, n.s ); break;
        case Node::Arr:
            o += '[';
            for ( size_t i = 0; i < n.a.size(); i++ )
            {
                if ( i )
                    o += ',';
                ToText( o, n.a[ i ] );
            }
            o += ']';
            break;
        case Node::Obj:
            o += '{';
            for ( size_t i = 0; i < n.o.size(); i++ )
            {
                if ( i )
                    o += ',';
                Quote( o, n.o[ i ].first );
                o += ':';
                ToText( o, n.o[ i ].second );
            }
            o += '}';
            break;
        default: o += "?";
        }
    }

    inline std::string Text( const Node& n )
    {
        std::string o;
        ToText( o, n );
        return o;
    }
} // namespace ref
