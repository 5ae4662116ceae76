// Described types, with an independent model of each (C05, C10-C14, C23): which documents fit, what a value becomes,
// which document a value makes, and the enumeration of documents around the type.
#pragma once
#include "lib.h"
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace T
{
    using C4::Json::Null;
    using C4::Json::ObjectMap;
    using C4::Json::Status;
    using ref::Node;
    using Terathon::Array;
    using Terathon::String;

    // ---------------------------------------------------------------- the described types

    struct S1
    {
        double   x = 0;
        String<> s;
        bool     b = false;
        Null     n;
    };
#define S1_PROTO "x", object.x, "s", object.s, "b", object.b, "n", object.n
    DEFINE_JSON4C4_FUNCTIONS( S1, S1_PROTO )

    struct S2
    {
        double        x = 0;
        String<>      s;
        Array<double> a;
    };
#define S2_PROTO "x", object.x, C4::Json::optional, "s", object.s, C4::Json::optional, "a", object.a
    DEFINE_JSON4C4_FUNCTIONS( S2, S2_PROTO )

    struct S3
    {
        S2                in;
        S2                in2;
        Array<S2>         list;
        ObjectMap<double> m;
        double            last = 0;
    };
#define S3_PROTO "in", object.in, C4::Json::optional, "in2", object.in2, "list", object.list, "m", object.m, "last", object.last
    DEFINE_JSON4C4_FUNCTIONS( S3, S3_PROTO )

    // All optional, in a row.
    struct S8
    {
        bool          a = false;
        double        b = 0;
        String<>      c;
        Array<String<>> d;
    };
#define S8_PROTO C4::Json::optional, "a", object.a, C4::Json::optional, "b", object.b, C4::Json::optional, "c", object.c, C4::Json::optional, "d", object.d
    DEFINE_JSON4C4_FUNCTIONS( S8, S8_PROTO )

    struct S5
    {
        double   p = 0;
        String<> q;
#define S5_PROTO "p", p, C4::Json::optional, "q", q
        DEFINE_JSON4C4_MEMBER_FUNCTIONS( S5_PROTO )
    };

    // A described type within another without a name: its members are members of the outer one.
    struct S6
    {
        S8     base;
        double y = 0;
    };
#define S6_PROTO object.base, "y", object.y
    DEFINE_JSON4C4_FUNCTIONS( S6, S6_PROTO )

    // Types with member functions as members of others, with and without a name.
    struct S11
    {
        S5     in, more;
        double z = 0;
    };
#define S11_PROTO "in", object.in, C4::Json::optional, "more", object.more, "z", object.z
    DEFINE_JSON4C4_FUNCTIONS( S11, S11_PROTO )

    struct S12
    {
        S5  base;
        S11 deep;
        S1  free;
#define S12_PROTO base, C4::Json::optional, "deep", deep, "free", free
        DEFINE_JSON4C4_MEMBER_FUNCTIONS( S12_PROTO )
    };

    // Names that are alike.
    struct S10
    {
        double a = 0, aa = 0, ab = 0, b = 0, e = 0;
    };
#define S10_PROTO "aa", object.aa, "", object.e, "a", object.a, C4::Json::optional, "ab", object.ab, "b", object.b
    DEFINE_JSON4C4_FUNCTIONS( S10, S10_PROTO )

    // A type described by a bare value (only for reading: the document is not an object).
    struct S7
    {
        Array<double> d;
    };
#define S7_PROTO object.d
    DEFINE_JSON4C4_FUNCTIONS( S7, S7_PROTO )

#ifndef JSON4C4_DISABLE_STD_SUPPORT
    struct S4
    {
        std::string                 s;
        std::vector<double>         v;
        std::map<std::string, bool> m;
        std::vector<std::string>    o;
    };
#    define S4_PROTO "s", object.s, "v", object.v, "m", object.m, C4::Json::optional, "o", object.o
    DEFINE_JSON4C4_FUNCTIONS( S4, S4_PROTO )

    struct S9
    {
        std::vector<std::map<std::string, std::vector<double>>> deep;
        std::map<std::string, S1>                               structs;
        std::vector<S5>                                         members;
    };
#    define S9_PROTO C4::Json::optional, "deep", object.deep, "structs", object.structs, C4::Json::optional, "members", object.members
    DEFINE_JSON4C4_FUNCTIONS( S9, S9_PROTO )
#endif

    template <class S>
    struct Fields
    {
        static constexpr bool described = false;
    };
#define FIELDS( S, ... )                                                                                                                                       \
    template <>                                                                                                                                                \
    struct Fields<S>                                                                                                                                           \
    {                                                                                                                                                          \
        using C                         = S;                                                                                                                   \
        static constexpr bool described = true;                                                                                                                \
        template <class V>                                                                                                                                     \
        static void each( V v )                                                                                                                                \
        {                                                                                                                                                      \
            __VA_ARGS__                                                                                                                                        \
        }                                                                                                                                                      \
    };
    FIELDS( S1, v( "x", false, &C::x ); v( "s", false, &C::s ); v( "b", false, &C::b ); v( "n", false, &C::n ); )
    FIELDS( S2, v( "x", false, &C::x ); v( "s", true, &C::s ); v( "a", true, &C::a ); )
    FIELDS( S3, v( "in", false, &C::in ); v( "in2", true, &C::in2 ); v( "list", false, &C::list ); v( "m", false, &C::m ); v( "last", false, &C::last ); )
    FIELDS( S8, v( "a", true, &C::a ); v( "b", true, &C::b ); v( "c", true, &C::c ); v( "d", true, &C::d ); )
    FIELDS( S5, v( "p", false, &C::p ); v( "q", true, &C::q ); )
    FIELDS( S6, v( nullptr, false, &C::base ); v( "y", false, &C::y ); )
    FIELDS( S11, v( "in", false, &C::in ); v( "more", true, &C::more ); v( "z", false, &C::z ); )
    FIELDS( S12, v( nullptr, false, &C::base ); v( "deep", true, &C::deep ); v( "free", false, &C::free ); )
    FIELDS( S10, v( "aa", false, &C::aa ); v( "", false, &C::e ); v( "a", false, &C::a ); v( "ab", true, &C::ab ); v( "b", false, &C::b ); )
    FIELDS( S7, v( nullptr, false, &C::d ); )
#ifndef JSON4C4_DISABLE_STD_SUPPORT
    FIELDS( S4, v( "s", false, &C::s ); v( "v", false, &C::v ); v( "m", false, &C::m ); v( "o", true, &C::o ); )
    FIELDS( S9, v( "deep", true, &C::deep ); v( "structs", false, &C::structs ); v( "members", true, &C::members ); )
#endif

    // ---------------------------------------------------------------- the model

    using Faults = std::set<Status>;

    inline const std::vector<Node>& KindSamples()
    {
        static const std::vector<Node> k = {
            Node::MkNull(), Node::MkBool( true ), Node::MkNum( 7 ), Node::MkStr( "w" ), []{ Node n = Node::MkArr(); n.a.push_back( Node::MkNum( 1 ) ); return n; }(),
            Node::MkArr(), Node::MkObj(), []{ Node n = Node::MkObj(); n.set( "x", Node::MkNum( 1 ) ); n.set( "a", Node::MkNum( 2 ) ); return n; }() };
        return k;
    }

    // Samples of other kinds than the given one.
    inline void Wrong( std::vector<Node>& out, Node::Kind own, int budget )
    {
        for ( auto& n : KindSamples() )
            if ( n.k != own )
            {
                out.push_back( n );
                if ( budget == 0 && out.size() >= 2 )
                    return;
            }
    }

    template <class X, class = void>
    struct M;

    template <>
    struct M<double>
    {
        static std::string name() { return "double"; }
        static void        faults( const Node& d, Faults& f ) { if ( d.k != Node::Num ) f.insert( Status::kInvalidValueType ); }
        static Node        apply( const Node& d, const Node& ) { return d; }
        static Node        node( const double& v ) { return Node::MkNum( v ); }
        static void        fill( double& v, const Node& n ) { v = n.d; }
        static Node        grow( int n, int ) { return Node::MkNum( n * 1.0625 - 3 ); }
        static std::vector<Node> docs( int b )
        {
            std::vector<Node> r = { Node::MkNum( -1.5 ) };
            if ( b > 0 ) { r.push_back( Node::MkNum( 0 ) ); }
            if ( b > 1 ) { r.push_back( Node::MkNum( -0.0 ) ); r.push_back( Node::MkNum( 1.7976931348623157e308 ) ); r.push_back( Node::MkNum( 5e-324 ) ); r.push_back( Node::MkNum( 0.1 ) ); r.push_back( Node::MkNum( 123456789012345678.0 ) ); }
            Wrong( r, Node::Num, b );
            return r;
        }
    };
    template <>
    struct M<bool>
    {
        static std::string name() { return "bool"; }
        static void        faults( const Node& d, Faults& f ) { if ( d.k != Node::Bool ) f.insert( Status::kInvalidValueType ); }
        static Node        apply( const Node& d, const Node& ) { return d; }
        static Node        node( const bool& v ) { return Node::MkBool( v ); }
        static void        fill( bool& v, const Node& n ) { v = n.b; }
        static Node        grow( int n, int ) { return Node::MkBool( n % 3 == 1 ); }
        static std::vector<Node> docs( int b )
        {
            std::vector<Node> r = { Node::MkBool( true ) };
            if ( b > 0 ) r.push_back( Node::MkBool( false ) );
            Wrong( r, Node::Bool, b );
            return r;
        }
    };
    template <>
    struct M<Null>
    {
        static std::string name() { return "Null"; }
        static void        faults( const Node& d, Faults& f ) { if ( d.k != Node::Null ) f.insert( Status::kInvalidValueType ); }
        static Node        apply( const Node& d, const Node& ) { return d; }
        static Node        node( const Null& ) { return Node(); }
        static void        fill( Null&, const Node& ) {}
        static Node        grow( int, int ) { return Node(); }
        static std::vector<Node> docs( int b )
        {
            std::vector<Node> r = { Node() };
            Wrong( r, Node::Null, b );
            return r;
        }
    };
    struct MString
    {
        static void faults( const Node& d, Faults& f ) { if ( d.k != Node::Str ) f.insert( Status::kInvalidValueType ); }
        static Node apply( const Node& d, const Node& ) { return d; }
        static Node grow( int n, int )
        {
            std::string s;
            for ( int i = 0; i < n; i++ ) s += char( 'a' + ( i * 7 + n ) % 26 );
            return Node::MkStr( s );
        }
        static std::vector<Node> docs( int b )
        {
            std::vector<Node> r = { Node::MkStr( "str" ) };
            if ( b > 0 ) r.push_back( Node::MkStr( "" ) );
            if ( b > 1 )
            {
                r.push_back( Node::MkStr( "a string that is longer than any local buffer in a string object \"\\/" ) );
                r.push_back( Node::MkStr( "\xC3\xA9\xF0\x9D\x84\x9E\n\t\x01\x1f\x7f" ) );
                r.push_back( Node::MkStr( std::string( 15, 'p' ) ) );
                r.push_back( Node::MkStr( std::string( 16, 'p' ) ) );
                r.push_back( Node::MkStr( std::string( 255, 'r' ) ) );
            }
            Wrong( r, Node::Str, b );
            return r;
        }
    };
    template <>
    struct M<String<>> : MString
    {
        static std::string name() { return "String<>"; }
        static Node        node( const String<>& v )
        {
            Node n = Node::MkStr( static_cast<const char*>( v ) );
            if ( int( n.s.size() ) != v.GetStringLength() ) n.k = Node::Bad;
            return n;
        }
        static void fill( String<>& v, const Node& n ) { v = n.s.c_str(); }
    };

    template <class E>
    inline std::vector<Node> ArrayDocs( int b, size_t cap )
    {
        std::vector<Node> e = M<E>::docs( b > 0 ? b - 1 : 0 ), r;
        size_t            L = b <= 0 ? 1 : b == 1 ? 2 : 3;
        Node              n = Node::MkArr();
        n.a.push_back( e[ 0 ] );
        r.push_back( n ); // base: one good element
        std::vector<Node> level = { Node::MkArr() };
        for ( size_t l = 0; l <= L; l++ )
        {
            r.insert( r.end(), level.begin(), level.end() );
            if ( l == L || level.size() * e.size() > cap )
                break;
            std::vector<Node> next;
            for ( auto& x : level )
                for ( auto& y : e )
                {
                    next.push_back( x );
                    next.back().a.push_back( y );
                }
            level.swap( next );
        }
        // Too many elements for all pairs: pairs (and with more effort triples) of a choice of them, most of them fitting.
        if ( b > 0 && e.size() * e.size() > cap )
        {
            std::vector<Node> good, bad, pick;
            for ( auto& x : e )
            {
                Faults f;
                M<E>::faults( x, f );
                ( f.empty() ? good : bad ).push_back( x );
            }
            const size_t most = b > 2 ? 24 : 14;
            for ( size_t k = 0; k < good.size(); k += good.size() / most + 1 )
                pick.push_back( good[ k ] );
            pick.push_back( M<E>::grow( 3, 1 ) );
            for ( size_t k = 0; k < bad.size() && k < 3; k++ )
                pick.push_back( bad[ k * ( bad.size() - 1 ) / 2 ] );
            for ( auto& x : pick )
                for ( auto& y : pick )
                {
                    Node t = Node::MkArr();
                    t.a.push_back( x );
                    t.a.push_back( y );
                    r.push_back( t );
                    if ( b > 2 )
                        for ( auto& z : pick )
                        {
                            r.push_back( t );
                            r.back().a.push_back( z );
                        }
                }
        }
        // A longer one, and the same with a wrong last element.
        if ( b > 0 )
        {
            Node g = Node::MkArr();
            for ( int i = 0; i < 9; i++ ) g.a.push_back( e[ 0 ] );
            r.push_back( g );
            g.a.push_back( e.back() );
            r.push_back( g );
        }
        Wrong( r, Node::Arr, b );
        return r;
    }

    template <class E>
    inline void ArrayFaults( const Node& d, Faults& f )
    {
        if ( d.k != Node::Arr )
            f.insert( Status::kInvalidValueType );
        for ( auto& x : d.a )
            M<E>::faults( x, f );
    }

    template <class E>
    struct Default
    {
        static Node node()
        {
            E e = E();
            return M<E>::node( e );
        }
    };

    template <class E>
    inline Node ArrayApply( const Node& d )
    {
        Node r = Node::MkArr();
        for ( auto& x : d.a )
            r.a.push_back( M<E>::apply( x, Default<E>::node() ) );
        return r;
    }

    template <class E>
    struct M<Array<E>>
    {
        static std::string name() { return "Array<" + M<E>::name() + ">"; }
        static void        faults( const Node& d, Faults& f ) { ArrayFaults<E>( d, f ); }
        static Node        apply( const Node& d, const Node& ) { return ArrayApply<E>( d ); }
        static Node        node( const Array<E>& v )
        {
            Node r = Node::MkArr();
            for ( int i = 0; i < v.GetArrayElementCount(); i++ ) r.a.push_back( M<E>::node( v[ i ] ) );
            return r;
        }
        static void fill( Array<E>& v, const Node& n )
        {
            v.PurgeArray();
            for ( auto& x : n.a )
            {
                E e = E();
                M<E>::fill( e, x );
                v.AppendArrayElement( e );
            }
        }
        static std::vector<Node> docs( int b ) { return ArrayDocs<E>( b, 600 ); }
        static Node grow( int n, int depth )
        {
            Node r = Node::MkArr();
            for ( int i = 0; i < n; i++ ) r.a.push_back( M<E>::grow( depth > 0 ? i % 6 : i, depth + 1 ) );
            return r;
        }
    };

    template <class E>
    inline std::vector<Node> MapDocs( int b )
    {
        std::vector<Node>        e = M<E>::docs( b > 0 ? b - 1 : 0 ), r;
        std::vector<std::string> names = { "a", "b", "" };
        if ( b > 1 ) names.push_back( "\xC3\xA9\"\n" );
        Node base = Node::MkObj();
        base.set( "k", e[ 0 ] );
        r.push_back( base );
        r.push_back( Node::MkObj() );
        size_t L = b <= 0 ? 1 : 2;
        for ( auto& n1 : names )
            for ( auto& x : e )
            {
                Node o = Node::MkObj();
                o.set( n1, x );
                r.push_back( o );
                if ( L < 2 ) continue;
                for ( auto& n2 : names )
                    if ( n2 != n1 )
                        for ( size_t k = 0; k < e.size(); k++ )
                        {
                            if ( e.size() > 12 && k > 2 && k + 3 < e.size() ) continue;
                            Node p = o;
                            p.set( n2, e[ k ] );
                            r.push_back( p );
                        }
            }
        if ( b > 0 )
        {
            Node g = Node::MkObj();
            for ( int i = 0; i < 9; i++ ) g.set( std::string( 1, char( 'a' + i * 7 % 9 ) ), e[ 0 ] );
            r.push_back( g );
            g.set( "zz", e.back() );
            r.push_back( g );
        }
        Wrong( r, Node::Obj, b );
        return r;
    }
    template <class E>
    inline void MapFaults( const Node& d, Faults& f )
    {
        if ( d.k != Node::Obj )
            f.insert( Status::kInvalidValueType );
        for ( auto& x : d.o )
            M<E>::faults( x.second, f );
    }
    // Sorted by name; names that were there before stay.
    template <class E>
    inline Node MapApply( const Node& d, const Node& prev )
    {
        std::map<std::string, Node> m;
        for ( auto& x : prev.o )
            m[ x.first ] = x.second;
        for ( auto& x : d.o )
        {
            auto i        = m.find( x.first );
            m[ x.first ]  = M<E>::apply( x.second, i == m.end() ? Default<E>::node() : i->second );
        }
        Node r = Node::MkObj();
        for ( auto& x : m )
            r.set( x.first, x.second );
        return r;
    }

    template <class E>
    struct M<ObjectMap<E>>
    {
        static std::string name() { return "ObjectMap<" + M<E>::name() + ">"; }
        static void        faults( const Node& d, Faults& f ) { MapFaults<E>( d, f ); }
        static Node        apply( const Node& d, const Node& prev ) { return MapApply<E>( d, prev ); }
        static Node        node( const ObjectMap<E>& v )
        {
            Node r = Node::MkObj();
            for ( const auto* x : v ) r.set( static_cast<const char*>( x->name ), M<E>::node( x->data ) );
            if ( int( r.o.size() ) != v.GetMapElementCount() ) r.k = Node::Bad;
            return r;
        }
        static void fill( ObjectMap<E>& v, const Node& n )
        {
            v.PurgeMap();
            for ( size_t i = n.o.size(); i-- > 0; )
            {
                auto* e = new typename ObjectMap<E>::ElementType;
                e->name = n.o[ i ].first.c_str();
                M<E>::fill( e->data, n.o[ i ].second );
                if ( !v.InsertMapElement( e ) ) delete e;
            }
        }
        static std::vector<Node> docs( int b ) { return MapDocs<E>( b ); }
        static Node grow( int n, int depth )
        {
            // names in sorted order
            Node r = Node::MkObj();
            for ( int i = 0; i < n; i++ )
            {
                char b[ 16 ];
                snprintf( b, sizeof b, "k%04d", i );
                r.set( b, M<E>::grow( depth > 0 ? i % 6 : i, depth + 1 ) );
            }
            return r;
        }
    };

#ifndef JSON4C4_DISABLE_STD_SUPPORT
    template <>
    struct M<std::string> : MString
    {
        static std::string name() { return "std::string"; }
        static Node        node( const std::string& v ) { return Node::MkStr( v ); }
        static void        fill( std::string& v, const Node& n ) { v = n.s; }
    };
    template <class E>
    struct M<std::vector<E>>
    {
        static std::string name() { return "vector<" + M<E>::name() + ">"; }
        static void        faults( const Node& d, Faults& f ) { ArrayFaults<E>( d, f ); }
        static Node        apply( const Node& d, const Node& ) { return ArrayApply<E>( d ); }
        static Node        node( const std::vector<E>& v )
        {
            Node r = Node::MkArr();
            for ( size_t i = 0; i < v.size(); i++ ) { const E& x = v[ i ]; r.a.push_back( M<E>::node( x ) ); }
            return r;
        }
        static void fill( std::vector<E>& v, const Node& n )
        {
            v.clear();
            for ( auto& x : n.a )
            {
                E e = E();
                M<E>::fill( e, x );
                v.push_back( e );
            }
        }
        static std::vector<Node> docs( int b ) { return ArrayDocs<E>( b, 600 ); }
        static Node grow( int n, int depth )
        {
            Node r = Node::MkArr();
            for ( int i = 0; i < n; i++ ) r.a.push_back( M<E>::grow( depth > 0 ? i % 6 : i, depth + 1 ) );
            return r;
        }
    };
    template <class E>
    struct M<std::map<std::string, E>>
    {
        static std::string name() { return "map<string," + M<E>::name() + ">"; }
        static void        faults( const Node& d, Faults& f ) { MapFaults<E>( d, f ); }
        static Node        apply( const Node& d, const Node& prev ) { return MapApply<E>( d, prev ); }
        static Node        node( const std::map<std::string, E>& v )
        {
            Node r = Node::MkObj();
            for ( auto& x : v ) r.set( x.first, M<E>::node( x.second ) );
            return r;
        }
        static void fill( std::map<std::string, E>& v, const Node& n )
        {
            v.clear();
            for ( auto& x : n.o ) M<E>::fill( v[ x.first ], x.second );
        }
        static std::vector<Node> docs( int b ) { return MapDocs<E>( b ); }
        static Node grow( int n, int depth )
        {
            // names in sorted order
            Node r = Node::MkObj();
            for ( int i = 0; i < n; i++ )
            {
                char b[ 16 ];
                snprintf( b, sizeof b, "k%04d", i );
                r.set( b, M<E>::grow( depth > 0 ? i % 6 : i, depth + 1 ) );
            }
            return r;
        }
    };
#endif

    template <class S>
    struct M<S, typename std::enable_if<Fields<S>::described>::type>
    {
        template <class P>
        using Mem = typename std::remove_reference<decltype( std::declval<S&>().*std::declval<P>() )>::type;

        static std::string name();
        static void        faults( const Node& d, Faults& f )
        {
            Fields<S>::each(
                [ & ]( const char* nm, bool opt, auto pm )
                {
                    using X = Mem<decltype( pm )>;
                    if ( !nm )
                        return M<X>::faults( d, f );
                    if ( d.k != Node::Obj )
                    {
                        f.insert( Status::kInvalidValueType );
                        return;
                    }
                    if ( const Node* n = d.get( nm ) )
                        M<X>::faults( *n, f );
                    else if ( !opt )
                        f.insert( Status::kNameNotPresent );
                } );
        }
        // The value as an object in the order of the description (a bare unnamed member: that member's value).
        static Node node( const S& v )
        {
            Node r = Node::MkObj();
            Fields<S>::each(
                [ & ]( const char* nm, bool, auto pm )
                {
                    using X = Mem<decltype( pm )>;
                    if ( nm )
                        r.set( nm, M<X>::node( v.*pm ) );
                    else
                    {
                        Node n = M<X>::node( v.*pm );
                        if ( n.k != Node::Obj )
                            r = n;
                        else
                            for ( auto& x : n.o ) r.set( x.first, x.second );
                    }
                } );
            return r;
        }
        static Node apply( const Node& d, const Node& prev )
        {
            Node r = Node::MkObj();
            Fields<S>::each(
                [ & ]( const char* nm, bool, auto pm )
                {
                    using X = Mem<decltype( pm )>;
                    if ( nm )
                    {
                        const Node *n = d.get( nm ), *p = prev.get( nm );
                        r.set( nm, n ? M<X>::apply( *n, *p ) : *p );
                    }
                    else
                    {
                        Node n = M<X>::apply( d, prev );
                        if ( n.k != Node::Obj )
                            r = n;
                        else
                            for ( auto& x : n.o ) r.set( x.first, x.second );
                    }
                } );
            return r;
        }
        static void fill( S& v, const Node& n )
        {
            Fields<S>::each(
                [ & ]( const char* nm, bool, auto pm )
                {
                    using X = Mem<decltype( pm )>;
                    if ( nm )
                        M<X>::fill( v.*pm, *n.get( nm ) );
                    else
                        M<X>::fill( v.*pm, n );
                } );
        }
        static Node grow( int n, int depth )
        {
            Node r = Node::MkObj();
            Fields<S>::each(
                [ & ]( const char* nm, bool, auto pm )
                {
                    using X = Mem<decltype( pm )>;
                    Node x  = M<X>::grow( n, depth + 1 );
                    if ( nm )
                        r.set( nm, x );
                    else if ( x.k != Node::Obj )
                        r = x;
                    else
                        for ( auto& y : x.o ) r.set( y.first, y.second );
                } );
            return r;
        }
        static std::vector<Node> docs( int b )
        {
            struct Member
            {
                std::string       name;
                std::vector<Node> d; // d[0]: a fitting value
            };
            std::vector<Member> ms;
            std::vector<Node>   bare;
            Fields<S>::each(
                [ & ]( const char* nm, bool, auto pm )
                {
                    using X = Mem<decltype( pm )>;
                    if ( nm )
                        ms.push_back( { nm, M<X>::docs( b - 1 ) } );
                    else
                        bare = M<X>::docs( b );
                } );
            std::vector<Node> r;
            if ( ms.empty() )
                return bare;
            auto make = [ & ]( const std::vector<int>& pick, const Node* outer )
            {
                Node o = outer ? *outer : Node::MkObj();
                for ( size_t i = 0; i < ms.size(); i++ )
                    if ( pick[ i ] >= 0 )
                        o.set( ms[ i ].name, ms[ i ].d[ size_t( pick[ i ] ) ] );
                r.push_back( o );
            };
            std::vector<int> base( ms.size(), 0 );
            if ( bare.empty() )
            {
                make( base, nullptr );
                // every document in which at most two (b > 1) or one members differ from a fitting one; -1: absent
                for ( size_t i = 0; i < ms.size(); i++ )
                    for ( int x = -1; x < int( ms[ i ].d.size() ); x++ )
                    {
                        if ( x == 0 )
                            continue;
                        std::vector<int> p = base;
                        p[ i ]             = x;
                        make( p, nullptr );
                        if ( b > 0 )
                            for ( size_t j = i + 1; j < ms.size(); j++ )
                                for ( int y = -1; y < int( ms[ j ].d.size() ); y++ )
                                {
                                    if ( y == 0 || ( ms[ j ].d.size() > 40 && b < 3 && y > 6 ) || ( ms[ i ].d.size() > 40 && b < 3 && x > 6 ) )
                                        continue;
                                    std::vector<int> q = p;
                                    q[ j ]             = y;
                                    make( q, nullptr );
                                }
                    }
                // every subset of members present
                if ( ms.size() <= 6 && b > 0 )
                    for ( unsigned m = 0; m < 1u << ms.size(); m++ )
                    {
                        std::vector<int> p( ms.size() );
                        for ( size_t i = 0; i < ms.size(); i++ )
                            p[ i ] = m >> i & 1 ? 0 : -1;
                        make( p, nullptr );
                    }
            }
            else
                for ( auto& o : bare )
                    for ( size_t i = 0; i < ms.size(); i++ )
                        for ( int x = -1; x < int( ms[ i ].d.size() ); x++ )
                            if ( o.k == Node::Obj )
                            {
                                std::vector<int> p = base;
                                p[ i ]             = x;
                                make( p, &o );
                            }
            if ( b > 0 )
            {
                // other order, members that are not described
                std::vector<Node> more;
                for ( size_t k = 0; k < r.size() && k < 60; k++ )
                {
                    Node x = r[ k ];
                    std::reverse( x.o.begin(), x.o.end() );
                    more.push_back( x );
                    x = r[ k ];
                    x.o.insert( x.o.begin(), { "not described", KindSamples()[ k % KindSamples().size() ] } );
                    for ( auto& m : ms )
                        if ( m.name.size() == 1 )
                        {
                            x.set( m.name + "x", Node::MkNull() );
                            x.set( std::string( 1, char( m.name[ 0 ] ^ 32 ) ), Node::MkStr( "other case" ) );
                        }
                    more.push_back( x );
                }
                r.insert( r.end(), more.begin(), more.end() );
            }
            Wrong( r, Node::Obj, b );
            return r;
        }
    };
#define TNAME( S )                                                                                                                                             \
    template <>                                                                                                                                                \
    inline std::string M<S>::name()                                                                                                                            \
    {                                                                                                                                                          \
        return #S;                                                                                                                                             \
    }
    TNAME( S1 ) TNAME( S2 ) TNAME( S3 ) TNAME( S5 ) TNAME( S6 ) TNAME( S7 ) TNAME( S8 ) TNAME( S10 ) TNAME( S11 ) TNAME( S12 )
#ifndef JSON4C4_DISABLE_STD_SUPPORT
    TNAME( S4 ) TNAME( S9 )
#endif

    // ---------------------------------------------------------------- the family of types

    // A value of the type and what can be done with it.
    struct Access
    {
        std::function<Status( lib::StructuredData& )> deserialize, validate, serialize;
        std::function<Node()>                         node;
    };

    struct Entry
    {
        std::function<void( const Node& prev, const std::function<void( Access& )>& )> with; // a value equal to prev
        std::string                                                                    name;
        bool                                                                           writable; // can be serialized as a root
        std::function<std::vector<Node>( int )>                                        docs;
        std::function<void( const Node&, Faults& )>                                    faults;
        std::function<Node( const Node&, const Node& )>                                apply;
        std::function<Node()>                                                          def;
        std::function<Node( int, int )>                                                grow; // a fitting document of a given size
        std::function<Status( lib::StructuredData&, const Node& prev, Node& after )>   deserialize; // into a value equal to prev
        std::function<Status( const lib::StructuredData&, const Node& v, Node& after )> validate;
        std::function<Status( lib::StructuredData&, const Node& )>                     serialize;
        std::function<Status( lib::Value*, const Node& )>                              into; // an existing value of a document
        bool                                                                           described = false;
    };

    template <class X>
    inline Status Into( lib::Value* to, const Node& n )
    {
        using C4::Json::Serialize;
        X v = X();
        M<X>::fill( v, n );
        return Serialize( to, static_cast<const X&>( v ) );
    }

    template <class X>
    inline Entry Make( bool writable = true )
    {
        Entry e;
        e.name        = M<X>::name();
        e.with        = []( const Node& prev, const std::function<void( Access& )>& f )
        {
            X v = X();
            M<X>::fill( v, prev );
            Access a;
            a.deserialize = [ &v ]( lib::StructuredData& sd ) { return sd.DeserializeTo( v ); };
            a.validate    = [ &v ]( lib::StructuredData& sd ) { const X& c = v; return C4::Json::Validate( sd, c ); };
            a.serialize   = [ &v ]( lib::StructuredData& sd ) { return sd.SerializeFrom( v ); };
            a.node        = [ &v ]() { return M<X>::node( v ); };
            f( a );
        };
        e.writable    = writable;
        e.docs        = M<X>::docs;
        e.faults      = M<X>::faults;
        e.apply       = M<X>::apply;
        e.def         = []() { return Default<X>::node(); };
        e.grow        = M<X>::grow;
        e.deserialize = []( lib::StructuredData& sd, const Node& prev, Node& after )
        {
            X v = X();
            M<X>::fill( v, prev );
            Status s = sd.DeserializeTo( v );
            after    = M<X>::node( v );
            return s;
        };
        e.validate = []( const lib::StructuredData& sd, const Node& prev, Node& after )
        {
            X v = X();
            M<X>::fill( v, prev );
            const X& c = v;
            Status   s = C4::Json::Validate( sd, c );
            after      = M<X>::node( v );
            return s;
        };
        e.serialize = []( lib::StructuredData& sd, const Node& n )
        {
            X v = X();
            M<X>::fill( v, n );
            return sd.SerializeFrom( v );
        };
        e.into      = Into<X>;
        e.described = Fields<X>::described;
        return e;
    }

    template <class X>
    inline Entry MakeReadOnly()
    {
        Entry e;
        e.name        = M<X>::name();
        e.with        = []( const Node& prev, const std::function<void( Access& )>& f )
        {
            X v = X();
            M<X>::fill( v, prev );
            Access a;
            a.deserialize = [ &v ]( lib::StructuredData& sd ) { return sd.DeserializeTo( v ); };
            a.validate    = [ &v ]( lib::StructuredData& sd ) { const X& c = v; return C4::Json::Validate( sd, c ); };
            a.serialize   = []( lib::StructuredData& ) { return Status::kException; };
            a.node        = [ &v ]() { return M<X>::node( v ); };
            f( a );
        };
        e.writable    = false;
        e.docs        = M<X>::docs;
        e.faults      = M<X>::faults;
        e.apply       = M<X>::apply;
        e.def         = []() { return Default<X>::node(); };
        e.grow        = M<X>::grow;
        e.deserialize = []( lib::StructuredData& sd, const Node& prev, Node& after )
        {
            X v = X();
            M<X>::fill( v, prev );
            Status s = sd.DeserializeTo( v );
            after    = M<X>::node( v );
            return s;
        };
        e.validate = []( const lib::StructuredData& sd, const Node& prev, Node& after )
        {
            X v = X();
            M<X>::fill( v, prev );
            const X& c = v;
            Status   s = C4::Json::Validate( sd, c );
            after      = M<X>::node( v );
            return s;
        };
        e.serialize = []( lib::StructuredData&, const Node& ) { return Status::kException; };
        return e;
    }

    inline const std::vector<Entry>& Family()
    {
        static const std::vector<Entry> f = {
            Make<double>(), Make<bool>(), Make<String<>>(), Make<Null>(),
            Make<Array<double>>(), Make<Array<bool>>(), Make<Array<String<>>>(), Make<Array<Null>>(),
            Make<ObjectMap<double>>(), Make<ObjectMap<bool>>(), Make<ObjectMap<String<>>>(), Make<ObjectMap<Null>>(),
            Make<Array<Array<double>>>(), Make<ObjectMap<Array<bool>>>(),
            Make<S1>(), Make<S2>(), Make<S3>(), Make<S5>(), Make<S6>(), Make<S8>(), Make<S10>(), Make<S11>(), Make<S12>(), Make<Array<S12>>(), MakeReadOnly<S7>(),
            Make<Array<S1>>(), Make<Array<S2>>(), Make<Array<S5>>(), Make<ObjectMap<S2>>(), Make<ObjectMap<S5>>(), Make<Array<S6>>(), Make<ObjectMap<S8>>(),
#ifndef JSON4C4_DISABLE_STD_SUPPORT
            Make<std::string>(), Make<std::vector<double>>(), Make<std::vector<bool>>(), Make<std::vector<std::string>>(), Make<std::vector<Null>>(), Make<std::vector<String<>>>(),
            Make<std::map<std::string, double>>(), Make<std::map<std::string, bool>>(), Make<std::map<std::string, std::string>>(), Make<std::map<std::string, Null>>(),
            Make<std::vector<std::vector<double>>>(), Make<std::map<std::string, std::map<std::string, double>>>(), Make<std::map<std::string, std::vector<std::string>>>(),
            Make<std::vector<std::map<std::string, bool>>>(), Make<Array<std::string>>(), Make<ObjectMap<std::vector<double>>>(), Make<Array<std::map<std::string, double>>>(),
            Make<S4>(), Make<S9>(), Make<std::vector<S2>>(), Make<std::vector<S5>>(), Make<std::map<std::string, S1>>(), Make<std::map<std::string, S5>>(), Make<std::vector<S4>>(),
            Make<std::map<std::string, S8>>(), Make<std::map<std::string, S11>>(),
#endif
        };
        return f;
    }

    // The values of a type: what each fitting document makes of a fresh value, without repetition.
    inline std::vector<Node> Values( const Entry& e, int budget )
    {
        std::vector<Node>     r;
        std::set<std::string> seen;
        Node                  d = e.def();
        for ( auto& n : e.docs( budget ) )
        {
            Faults f;
            e.faults( n, f );
            if ( !f.empty() )
                continue;
            Node v = e.apply( n, d );
            if ( seen.insert( ref::Text( v ) ).second )
                r.push_back( v );
        }
        return r;
    }
} // namespace T
