// Exhaustive enumeration of JSON texts and non-texts, guided by the reference automaton: every viable prefix over an
// alphabet up to a length, every way to leave it, and sweeps over code points, lengths, depths and mutations.
#pragma once
#include "fw.h"
#include "ref.h"
#include <algorithm>

namespace texts
{
    using fw::Engine;
    using F      = std::function<void( const std::string& )>;
    using Tokens = std::vector<std::string>;

    struct Bounds
    {
        // phase lengths (in tokens)
        int structure, numbers, strings, literals, tokens, wsTokens, access, escTokens;
        bool pairs, scalars, mutations, twoByte;
        int  sweep, depth, perm;
    };

    inline Tokens Chars( const std::string& s )
    {
        Tokens t;
        for ( char c : s )
            t.push_back( std::string( 1, c ) );
        return t;
    }

    inline ref::Auto Run( const std::string& s )
    {
        ref::Auto a;
        for ( char c : s )
            a.feed( (unsigned char)c );
        return a;
    }

    // Ways to go one level deeper: as the first or a later element or member, behind values of every kind.
    inline const Tokens& Ways()
    {
        static const Tokens w = { "[", "[1,", "[true,\"\",", "[[],", "{\"a\":", "{\"a\":1,\"b\":", "{\"b\":{},\"a\":", "{\"a\":\"x\",\"c\":null,\"b\":", "[{\"a\":[0]}\n," };
        return w;
    }
    // Text that goes n levels deeper by the word of ways number u, over and over, and what closes it.
    inline std::string Word( uint64_t u, size_t n, std::string* close )
    {
        const uint64_t      nw = Ways().size();
        std::vector<size_t> w;
        size_t              len = u < nw ? 1 : u < nw + nw * nw ? 2 : 3;
        u -= len == 1 ? 0 : len == 2 ? nw : nw + nw * nw;
        for ( size_t i = 0; i < len; i++, u /= nw )
            w.push_back( size_t( u % nw ) );
        std::string o;
        for ( size_t i = 0; i < n; i++ )
        {
            const std::string& x = Ways()[ w[ i % len ] ];
            o += x;
            *close += x[ 0 ] == '[' ? ']' : '}';
        }
        std::reverse( close->begin(), close->end() );
        return o;
    }

    class Search
    {
        Engine&       e;
        const Tokens& al;
        int           max;
        const F&      f;

        void leaf( const ref::Auto& before, const ref::Auto& after, const std::string& t )
        {
            f( t );
            if ( after.dead() )
                f( t + before.completion() );
            else if ( !after.accepting() )
                f( t + after.completion() );
        }

        // Returns the configuration after one more token.
        ref::Auto advance( const ref::Auto& a, size_t k, std::string& t )
        {
            ref::Auto b = a;
            for ( char c : al[ k ] )
                b.feed( (unsigned char)c );
            t += al[ k ];
            uint64_t ca = a.config();
            e.trans( fw::Mix( ca, fw::HashStr( al[ k ] ) ) );
            e.state( b.dead() ? fw::Mix( 0xDEAD, fw::Mix( ca, uint64_t( b.why ) ) ) : b.config() );
            return b;
        }

        void dfs( const ref::Auto& a, std::string& t, int depth )
        {
            for ( size_t k = 0; k < al.size() && !e.stopped(); k++ )
            {
                size_t    len = t.size();
                ref::Auto b   = advance( a, k, t );
                leaf( a, b, t );
                if ( !b.dead() && depth + 1 < max )
                    dfs( b, t, depth + 1 );
                t.resize( len );
            }
        }

    public:
        Search( Engine& en, const Tokens& alphabet, int maxTokens, const F& fn ) : e( en ), al( alphabet ), max( maxTokens ), f( fn ) {}

        void unit( const std::string& prefix, uint64_t u, int split )
        {
            std::string t = prefix;
            ref::Auto   a = Run( prefix );
            e.state( a.config() );
            size_t n = al.size();
            bool   own = true; // this unit is the one that reports the current prefix
            for ( int i = 0; i < split; i++ )
            {
                uint64_t  rest = 1;
                for ( int j = i + 1; j < split; j++ )
                    rest *= n;
                size_t    k = size_t( u / rest );
                ref::Auto b = advance( a, k, t );
                u %= rest;
                own = u == 0;
                if ( own && i < max )
                    leaf( a, b, t );
                if ( b.dead() || i + 1 >= max )
                    return;
                a = b;
            }
            if ( split < max )
                dfs( a, t, split );
        }
    };

    // All token sequences up to length max after each prefix.
    inline void Phase( Engine& e, const char* name, const Tokens& prefixes, const Tokens& al, int max, const F& f )
    {
        if ( max <= 0 )
            return;
        int      split = max < 3 ? max : al.size() <= 16 && max > 5 ? 3 : 2;
        uint64_t n     = 1;
        for ( int i = 0; i < split; i++ )
            n *= al.size();
        Search s( e, al, max, f );
        e.phase( name, n * prefixes.size(), [ & ]( uint64_t u ) { s.unit( prefixes[ u / n ], u % n, split ); } );
    }

    inline const Tokens& Documents()
    {
        static const Tokens d = {
            "{\"name\" : \"x\", \"list\":[1, -2.5e+3,0.125 ],\n \"t\":true,\t\"f\":false,\"n\":null}",
            "[\"a\\\"b\\\\c\\/d\\b\\f\\n\\r\\t\", \"\\u00e9\\u20AC\\ud834\\uDD1E\", \"\xC3\xA9\xE2\x82\xAC\xF0\x9D\x84\x9E\"]",
            "{\"b\":{\"a\":{\"c\":[[],{},[{}],[[1]]]}},\"a\":[[[\"\"]]],\"\":0}",
            " \r\n\t[ 0 , -0 , 1e5 , 12345678901234567890 , 1E-7 ]\r\n ",
            "\n\n  {\n\"k\"\n:\n1\n,\n\"k2\":\n[\n]\n}\n",
            "-123.456e-78",
            "\"plain string with no escapes, longer than sixteen bytes\"",
            "{\"a\":1,\"a\":2,\"b\":{\"x\":1,\"x\":[2],\"y\":3},\"b\":null}",
            "true",
            "[null,true,false,\"\",0,[],{}]",
            "{\"zeta\":1,\"eta\":2,\"theta\":3,\"iota\":4,\"kappa\":5,\"lambda\":6,\"mu\":7,\"alpha\":8}",
        };
        return d;
    }

    inline std::string Repeat( const std::string& s, size_t n )
    {
        std::string r;
        r.reserve( s.size() * n );
        while ( n-- )
            r += s;
        return r;
    }

    inline void All( Engine& e, const Bounds& b, const F& f )
    {
        e.phase( "whole documents and truncations", Documents().size(),
                 [ & ]( uint64_t u )
                 {
                     const std::string& d = Documents()[ u ];
                     for ( size_t n = 0; n <= d.size(); n++ )
                     {
                         f( d.substr( 0, n ) );
                         std::string z = d;
                         z.insert( n, 1, '\0' );
                         f( z );
                     }
                 } );
        Phase( e, "structure alphabet", { "" }, Chars( "[]{},:\"a1 " ), b.structure, f );
        Phase( e, "number alphabet", { "", "[", "{\"a\":" }, Chars( "0159-+.eE,]} " ), b.numbers, f );
        Phase( e, "string alphabet", { "\"", "{\"" }, Chars( "\"\\u0dD8CbnA1/\xC2\x80\xE2\x1f\x7f " ), b.strings, f );
        Phase( e, "literal alphabet", { "", "[" }, Chars( "truefalsn[,]1T" ), b.literals, f );
        Phase( e, "token alphabet", { "" },
               { "[", "]", "{", "}", ",", ":", "\"a\"", "\"b\"", "\"\\u0061\"", "-1.5e1", "true", "null", "\n" }, b.tokens, f );
        Phase( e, "whitespace alphabet", { "", "[", "[1", "{", "{\"a\"", "{\"a\":", "{\"a\":1", "[]", "{}", "1", "true", "\"s\"" },
               Chars( std::string( " \t\n\r\v\f\b\xA0\xEF,]}:1x" ) ), b.wsTokens, f );
        Phase( e, "escape tokens", { "\"", "[\"x", "{\"a\":\"" },
               { "\\n", "\\\"", "\\\\", "\\/", "\\u0000", "\\u0001", "\\u007f", "\\u0080", "\\u07FF", "\\u0800", "\\uD7ff", "\\uD800", "\\uDBFF", "\\uDC00",
                 "\\uDFFF", "\\uE000", "\\uFFFF", "\\U1234", "\\x41", "\\", "\xC3\xA9", "\xF0\x90\x80\x80", "a", "\"" },
               b.escTokens, f );

        // Every configuration reachable within a few representative tokens x every byte x every way to go on.
        {
            static const Tokens acc = []
            {
                Tokens                      out;
                std::map<uint64_t, bool>    seen;
                std::vector<std::string>    level = { "" };
                const Tokens                al    = Chars( "[]{},:\"\\u0d1-.eEtrufalsn \xC3\xE0\xE1\xED\xF0\xF1\xF4\x80\xBF\x9F\x8F\xA0\x90" );
                const size_t                cap   = 6;
                for ( size_t i = 0; i <= cap; i++ )
                {
                    std::vector<std::string> next;
                    for ( auto& t : level )
                    {
                        ref::Auto a = Run( t );
                        if ( a.dead() || !seen.emplace( a.config(), true ).second )
                            continue;
                        out.push_back( t );
                        for ( auto& c : al )
                            next.push_back( t + c );
                    }
                    level.swap( next );
                }
                return out;
            }();
            size_t used = 0;
            static std::vector<size_t> idx;
            idx.clear();
            for ( size_t i = 0; i < acc.size(); i++ )
                if ( int( Run( acc[ i ] ).pos ) <= b.access )
                    idx.push_back( i ), used++;
            e.phase( "every configuration x every byte", used,
                     [ & ]( uint64_t u )
                     {
                         const std::string& t = acc[ idx[ u ] ];
                         ref::Auto          a = Run( t );
                         static const Tokens cont = { "", "1", "\"", ",1]", "]", "}", " ", ":1}", "u0041\"", "a" };
                         for ( int c = 0; c < 256; c++ )
                         {
                             ref::Auto x = a;
                             x.feed( (unsigned char)c );
                             e.trans( fw::Mix( a.config(), uint64_t( c ) + 1000 ) );
                             std::string s = t + char( c );
                             for ( auto& k : cont )
                             {
                                 f( s + k );
                                 ref::Auto y = x;
                                 for ( char ch : k )
                                     y.feed( (unsigned char)ch );
                                 if ( !y.dead() )
                                     f( s + k + y.completion() );
                             }
                             if ( x.dead() )
                                 f( s + a.completion() );
                         }
                     } );
        }

        e.phase( "every \\uXXXX escape", 256,
                 [ & ]( uint64_t u )
                 {
                     for ( int lo = 0; lo < 256; lo++ )
                     {
                         unsigned code = unsigned( u ) * 256 + unsigned( lo );
                         char     x[ 16 ], y[ 16 ];
                         snprintf( x, sizeof x, "\\u%04x", code );
                         snprintf( y, sizeof y, "\\u%04X", code );
                         f( std::string( "\"" ) + x + "\"" );
                         f( std::string( "[\"a" ) + y + "b\"]" );
                         f( std::string( "{\"" ) + y + "\":\"" + x + "\\u0041\"}" );
                         if ( code >= 0xD800 && code < 0xE000 )
                         {
                             f( std::string( "\"" ) + x + "\\uDC00\"" );
                             f( std::string( "\"\\uD800" ) + x + "\"" );
                             f( std::string( "\"" ) + x + "\\n\\uDC00\"" );
                             f( std::string( "\"" ) + x + "\\u" );
                             f( std::string( "\"" ) + x + "\\uDC0\"" );
                         }
                     }
                 } );
        if ( b.pairs )
            e.phase( "every surrogate pair", 1024,
                     [ & ]( uint64_t h )
                     {
                         for ( unsigned l = 0; l < 1024; l++ )
                         {
                             char x[ 32 ];
                             snprintf( x, sizeof x, "\"\\ud%03x\\uD%03X\"", 0x800 + unsigned( h ), 0xC00 + l );
                             f( x );
                         }
                     } );
        if ( b.scalars )
            e.phase( "every raw code point", 0x110,
                     [ & ]( uint64_t u )
                     {
                         for ( unsigned l = 0; l < 0x1000; l++ )
                         {
                             unsigned    c = unsigned( u ) * 0x1000 + l;
                             std::string s = "\"";
                             if ( c == 0 )
                                 continue;
                             if ( c < 0x80 )
                                 s += char( c );
                             else
                                 ref::PutUtf8( s, c );
                             f( s + "\"" );
                             f( "{" + s + "z\":1}" );
                         }
                     } );
        if ( b.twoByte )
            e.phase( "every 2-, 3- and boundary 4-byte sequence in a string", 128,
                     [ & ]( uint64_t u )
                     {
                         unsigned            b0 = 128 + unsigned( u );
                         static const Tokens b4 = Chars( std::string( "\x00\x20\"\\\x7f\x80\x8f\x90\x9f\xa0\xbf\xc0\xff", 13 ) );
                         for ( unsigned b1 = 0; b1 < 256; b1++ )
                         {
                             std::string s = std::string( "\"" ) + char( b0 ) + char( b1 );
                             f( s + "\"" );
                             for ( unsigned b2 = 0; b2 < 256; b2++ )
                             {
                                 bool interesting = b0 >= 0xC0 || b2 < 4 || ( b2 >= 0x7E && b2 <= 0x81 );
                                 if ( !interesting )
                                     continue;
                                 f( s + char( b2 ) + "\"" );
                                 if ( b0 >= 0xF0 && b1 >= 0x7F && b1 <= 0xC0 && ( b2 <= 0x23 || ( b2 >= 0x7E && b2 <= 0x81 ) || ( b2 >= 0xBE && b2 <= 0xC1 ) ) )
                                     for ( auto& b3 : b4 )
                                         f( s + char( b2 ) + b3 + "\"" );
                             }
                         }
                     } );
        e.phase( "length sweeps", uint64_t( b.sweep ),
                 [ & ]( uint64_t n )
                 {
                     std::string p( n, 'x' );
                     for ( size_t i = 0; i < p.size(); i++ )
                         p[ i ] = char( 'a' + i % 26 );
                     f( "\"" + p + "\"" );
                     f( "\"" + p );
                     f( "{\"" + p + "\":\"" + p + "\"}" );
                     f( "{\"" + p + "\":1,\"" + p + "b\":2,\"b" + p + "\":3,\"" + p + "\":4}" );
                     f( "\"" + p + "\\n" + p + "\"" );
                     f( "\"" + p + "\\u00e9\\ud834\\udd1e\"" );
                     f( "\"" + p + "\x01\"" );
                     f( "\"" + p + "\xC3\"" );
                     f( "\"" + p + "\\q\"" );
                     f( "1" + Repeat( "0", n ) );
                     f( "0." + Repeat( "0", n ) + "1" );
                     f( "1." + Repeat( "3", n ) + "e5" );
                     f( "0" + Repeat( "0", n ) );
                     f( "-" + Repeat( "1", n ) );
                     f( "1e" + Repeat( "0", n ) + "5" );
                     f( "1e-" + Repeat( "0", n ) + "5x" );
                     f( Repeat( " ", n ) + "[" + Repeat( "\t", n ) + "1" + Repeat( "\r", n ) + "]" + Repeat( "\n", n ) );
                     f( Repeat( "\n", n ) + "[" + Repeat( " ", n ) + "x" );
                     f( Repeat( "\n", n ) + Repeat( " ", n ) + "{\"a\" 1}" );
                     f( Repeat( "\n", n ) + "[1]" + Repeat( " ", n ) + "2" );
                     std::string list = "[", obj = "{", back = "{", mixed = "{";
                     for ( uint64_t i = 0; i < n; i++ )
                     {
                         list += ( i ? "," : "" ) + std::to_string( i );
                         obj += ( i ? ",\"k" : "\"k" ) + std::to_string( i ) + "\":" + std::to_string( i );
                         back += ( i ? ",\"" : "\"" ) + std::string( n - i, 'z' ) + "\":" + std::to_string( i );
                         mixed += ( i ? ",\"" : "\"" ) + std::to_string( ( i * 7919 ) % 1009 % ( n * 2 / 3 + 1 ) ) + "\":[" + std::to_string( i ) + "]";
                     }
                     f( list + "]" );
                     f( list );
                     f( list + ",]" );
                     f( obj + "}" );
                     f( obj + ",}" );
                     f( obj );
                     if ( n <= 200 )
                         f( back + "}" );
                     f( mixed + "}" );
                     f( mixed + "]" );
                 } );
        {
            static const size_t big[] = { 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 16383, 32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 131071 };
            e.phase( "large texts", sizeof big / sizeof big[ 0 ],
                     [ & ]( uint64_t u )
                     {
                         size_t      n = big[ u ];
                         std::string p( n, 'x' );
                         for ( size_t i = 0; i < n; i++ )
                             p[ i ] = char( 'a' + i % 26 );
                         f( "\"" + p + "\"" );
                         f( "[\"" + p + "\",\"" + p + "\\n\"]" );
                         f( "{\"" + p + "\":1,\"" + p + "b\":2}" );
                         f( "{\"" + p + "a\":1,\"" + p + "c\":2,\"" + p + "b\":3,\"" + p + "a\":4}" );
                         f( "\"" + p );
                         f( Repeat( " ", n ) + "1" + Repeat( " ", n ) );
                         f( Repeat( "\n", n ) + "]" );
                         f( Repeat( "\n ", n ) + "[1," + Repeat( " ", n / 2 ) + "]" );
                         f( Repeat( " ", n ) + "]" );
                         f( "[" + Repeat( "1,", n ) + "1]" );
                         f( "[" + Repeat( "1,", n ) );
                         f( "1" + Repeat( "0", n ) );
                         f( "0." + Repeat( "0", n ) + "1" );
                         std::string obj = "{";
                         for ( size_t i = 0; i < n && obj.size() < 200000; i++ )
                             obj += ( i ? ",\"" : "\"" ) + std::to_string( i * 7919 % 99991 ) + "\":" + std::to_string( i );
                         f( obj + "}" );
                         f( obj + "]" );
                         // many members, all once more with other values
                         obj.clear();
                         for ( int again = 0; again < 2; again++ )
                             for ( size_t i = 0; i < n && i < 9000; i++ )
                                 obj += ( obj.empty() ? "{\"" : ",\"" ) + std::to_string( ( i + 17 * size_t( again ) ) * 7919 % 99991 ) + "\":" + ( again ? "true" : "[]" );
                         f( obj + "}" );
                     } );
        }
        {
            // Depths: all small ones, and every one around the limit.
            static std::vector<size_t> depths;
            depths.clear();
            for ( int i = 0; i <= 40; i++ )
                depths.push_back( size_t( i ) );
            for ( int i = 64; i <= b.depth; i *= 2 )
                for ( int k = -1; k <= 1; k++ )
                    depths.push_back( size_t( i + k ) );
            e.phase( "nesting depths", depths.size() * 6,
                     [ & ]( uint64_t u )
                     {
                         size_t      n = depths[ u / 6 ];
                         int         m = int( u % 6 );
                         std::string o, c;
                         for ( size_t i = 0; i < n; i++ )
                         {
                             bool arr = m == 0 || m == 3 || ( m == 2 && i % 2 ) || ( m == 4 && i % 3 ) || ( m == 5 && i % 2 == 0 );
                             o += arr ? ( m == 3 ? "[1,[]," : "[" ) : "{\"a\":";
                             c += arr ? ']' : '}';
                         }
                         std::reverse( c.begin(), c.end() );
                         f( o + "1" + c );
                         f( o + c );
                         f( o );
                         f( o + "1" );
                         f( o + "1" + c.substr( 0, c.size() / 2 ) );
                         if ( !c.empty() )
                         {
                             f( o + "1" + c.substr( 1 ) );
                             std::string w = c;
                             w.back()      = w.back() == ']' ? '}' : ']';
                             f( o + "1" + w );
                             w        = c;
                             w[ 0 ]   = w[ 0 ] == ']' ? '}' : ']';
                             f( o + "1" + w );
                         }
                         f( o + "1" + c + "]" );
                         f( "[" + o + "1" + c + "," + o + "2" + c + "]" );
                         f( "{\"p\":" + o + "1" + c + ",\"q\":" + o + "2" + c + "}" );
                     } );
        }
        {
            // Ways to nest: as the first, second or third element or member, after values of every kind; every word of ways, repeated.
            const uint64_t nw = Ways().size();
            e.phase( "words of nesting", nw + nw * nw + ( b.perm > 5 ? nw * nw * nw : 0 ),
                     [ & ]( uint64_t u )
                     {
                         for ( size_t n : { 2, 3, 7, 1022, 1023, 1024, 1025, 1026, 1027, 2500 } )
                         {
                             std::string c, o = Word( u, n, &c );
                             f( o + "1" + c );
                             f( o + "[]" + c );
                             f( o + "{\"a\":1}" + c );
                             f( o );
                             f( "[" + o + "1" + c + "," + o + "2" + c + "]" );
                         }
                     } );
        }
        {
            // Every insertion order of members and every pattern of repeated names.
            static const Tokens names = { "a", "b", "", "ab", "\xC3\xA9", "B", "a\\u0001" };
            int                 k     = b.perm;
            uint64_t            n     = 1;
            for ( int i = 0; i < k; i++ )
                n *= names.size();
            e.phase( "every sequence of member names", n,
                     [ & ]( uint64_t u )
                     {
                         std::string t = "{";
                         for ( int i = 0; i < k; i++ )
                         {
                             t += ( i ? ",\"" : "\"" ) + names[ u % names.size() ] + "\":" + ( i % 3 == 2 ? "[" + std::to_string( i ) + "]" : std::to_string( i ) );
                             u /= names.size();
                             f( t + "}" );
                         }
                         f( t );
                         f( t + "x" );
                     } );
        }
        if ( b.mutations )
        {
            size_t total = 0;
            for ( auto& d : Documents() )
                total += d.size();
            e.phase( "every byte of every document changed", total,
                     [ & ]( uint64_t u )
                     {
                         size_t k = 0;
                         while ( u >= Documents()[ k ].size() )
                             u -= Documents()[ k++ ].size();
                         const std::string& d = Documents()[ k ];
                         for ( int c = 0; c < 256; c++ )
                         {
                             std::string m = d;
                             m[ u ]        = char( c );
                             f( m );
                             m = d;
                             m.insert( u, 1, char( c ) );
                             f( m );
                         }
                         std::string m = d;
                         m.erase( u, 1 );
                         f( m );
                         for ( size_t j = u + 1; j < d.size(); j++ )
                         {
                             m = d;
                             std::swap( m[ u ], m[ j ] );
                             f( m );
                             f( d.substr( 0, u ) + d.substr( j ) );
                             f( d.substr( 0, j ) + d.substr( u ) );
                         }
                     } );
        }
    }

    // Every document tree of a given number of values.
    inline const std::vector<ref::Node>& Trees( int n )
    {
        static std::map<int, std::vector<ref::Node>> memo;
        auto                                    it = memo.find( n );
        if ( it != memo.end() )
            return it->second;
        std::vector<ref::Node> r;
        if ( n == 1 )
        {
            r = { ref::Node::MkNull(), ref::Node::MkBool( true ), ref::Node::MkNum( -0.1 ), ref::Node::MkStr( "q\"\n" ), ref::Node::MkArr(), ref::Node::MkObj() };
        }
        else
        {
            std::function<void( std::vector<ref::Node>&, int )> go = [ & ]( std::vector<ref::Node>& kids, int left )
            {
                if ( left == 0 )
                {
                    ref::Node a = ref::Node::MkArr();
                    a.a    = kids;
                    r.push_back( a );
                    ref::Node               o    = ref::Node::MkObj();
                    static const char* nm[] = { "m", "c", "x", "", "\xC3\xA9", "a" };
                    for ( size_t i = 0; i < kids.size(); i++ )
                        o.set( nm[ i ], kids[ i ] );
                    r.push_back( o );
                    return;
                }
                for ( int k = 1; k <= left; k++ )
                    for ( auto& x : Trees( k ) )
                    {
                        kids.push_back( x );
                        go( kids, left - k );
                        kids.pop_back();
                    }
            };
            std::vector<ref::Node> kids;
            go( kids, n - 1 );
        }
        return memo[ n ] = r;
    }
} // namespace texts
