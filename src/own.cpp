// C26: types with functions of their own (free, member, or with a representation of their own) at every position of
// described types and containers, failing or throwing at every call, in sequences of operations on the same objects.
#include "alloc.h"
#include "fw.h"
#include "lib.h"
#include <map>
#include <stdexcept>
#include <vector>

using namespace C4::Json;
using Terathon::Array;
using Terathon::String;
using lib::Parse;
using lib::Tree;
using ref::Node;

namespace probe
{
    struct Call
    {
        char op;
        int  id;
    };
    enum { kLog = 4096 };
    static Call log[ kLog ];
    static int  calls, failAt, how;
    static bool late;
    enum { kStatuses = 28, kHows = kStatuses + 3 }; // every status but kOk, then three kinds of exceptions

    static void Reset( int at = -1, int h = 0, bool l = false )
    {
        calls  = 0;
        failAt = at;
        how    = h;
        late   = l;
    }
    static Status Fail()
    {
        switch ( how )
        {
            case kStatuses: throw std::bad_alloc();
            case kStatuses + 1: throw 42;
            case kStatuses + 2: throw std::runtime_error( "refused" );
        }
        return Status( how + 1 );
    }
    static Status Expected()
    {
        return how >= kStatuses ? Status::kException : Status( how + 1 );
    }
    // The beginning and the end of a call of an own function.
    static Status In( char op, int id )
    {
        if ( calls < kLog )
            log[ calls ] = { op, id };
        return calls++ == failAt && !late ? Fail() : Status::kOk;
    }
    static Status Out()
    {
        return calls - 1 == failAt && late ? Fail() : Status::kOk;
    }

    // Free functions.
    struct F
    {
        int id = 0;
    };
    // Member functions.
    struct M
    {
        int    id = 0;
        Status Serialize( Value* v ) const;
        Status Deserialize( const Value* v );
        Status Validate( const Value* v ) const;
    };
    // Free functions and a JSON value of its own (a string).
    struct C
    {
        int id = 0;
    };

    static int IdIn( const Value* v )
    {
        double d = -1;
        return C4::Json::Deserialize( v, "id", d ) == Status::kOk ? int( d ) : -1;
    }
    static Status Ser( Value* v, int id )
    {
        Status s = In( 'S', id );
        if ( s == Status::kOk )
            s = C4::Json::Serialize( v, "id", double( id ) );
        return s == Status::kOk ? Out() : s;
    }
    static Status Des( const Value* v, int& id )
    {
        int    x = IdIn( v );
        Status s = In( 'D', x );
        if ( s == Status::kOk )
            id = x;
        return s == Status::kOk ? Out() : s;
    }
    static Status Val( const Value* v )
    {
        Status s = In( 'V', IdIn( v ) );
        return s == Status::kOk ? Out() : s;
    }
    Status Serialize( Value* v, const F& f ) { return Ser( v, f.id ); }
    Status Deserialize( const Value* v, F& f ) { return Des( v, f.id ); }
    Status Validate( const Value* v, const F& ) { return Val( v ); }
    Status M::Serialize( Value* v ) const { return Ser( v, id ); }
    Status M::Deserialize( const Value* v ) { return Des( v, id ); }
    Status M::Validate( const Value* v ) const { return Val( v ); }

    static int IdOf( const Value* v )
    {
        const String<>* s = v->GetDataAsPointerTo<String<>>();
        return s ? atoi( static_cast<const char*>( *s ) + 1 ) : -1;
    }
    Status Serialize( Value* v, const C& c )
    {
        Status s = In( 'S', c.id );
        if ( s != Status::kOk )
            return s;
        String<>* t = v->GetDataAsPointerTo<String<>>();
        if ( !t )
            return Status::kInvalidValueType;
        *t = "#";
        *t += Terathon::int32( c.id );
        return Out();
    }
    Status Deserialize( const Value* v, C& c )
    {
        Status s = In( 'D', IdOf( v ) );
        if ( s == Status::kOk )
            c.id = IdOf( v );
        return s == Status::kOk ? Out() : s;
    }
    Status Validate( const Value* v, const C& )
    {
        Status s = In( 'V', IdOf( v ) );
        return s == Status::kOk ? Out() : s;
    }
} // namespace probe

namespace C4
{
    namespace Json
    {
        namespace Detail
        {
            template <>
            inline Value* CreateValueFor( const probe::C& ) noexcept( false )
            {
                return CreateValueFor( String<>() );
            }
        } // namespace Detail
    } // namespace Json
} // namespace C4

// ---------------------------------------------------------------- the shapes around a probe

// What every shape tells: how it is filled with successive numbers (in the order in which its own functions are called),
// which document that makes, and which numbers it holds. Containers have n elements; optional members may be left out of
// documents.
struct Ctx
{
    int  n    = 1;
    bool opt  = true; // the document has the optional members
    bool more = false; // and undescribed ones
    int  next = 1;
};

template <class X>
struct Sh;

static std::string NameOf( int i )
{
    return i < 26 ? std::string( 1, char( 'a' + i ) ) : "z" + std::string( size_t( i / 26 - 1 ), 'z' ) + char( 'a' + i % 26 );
}

template <class P>
struct Probe
{
    static void fill( P& p, Ctx& c ) { p.id = c.next++; }
    static Node doc( Ctx& c )
    {
        Node o = Node::MkObj();
        o.set( "id", Node::MkNum( c.next++ ) );
        if ( c.more )
            o.set( "other", Node::MkArr() );
        return o;
    }
    static void ids( const P& p, std::vector<int>& v ) { v.push_back( p.id ); }
};
template <>
struct Sh<probe::F> : Probe<probe::F>
{
};
template <>
struct Sh<probe::M> : Probe<probe::M>
{
};
template <>
struct Sh<probe::C>
{
    static void fill( probe::C& p, Ctx& c ) { p.id = c.next++; }
    static Node doc( Ctx& c ) { return Node::MkStr( "#" + std::to_string( c.next++ ) ); }
    static void ids( const probe::C& p, std::vector<int>& v ) { v.push_back( p.id ); }
};

template <class E>
struct Sh<Array<E>>
{
    static void fill( Array<E>& x, Ctx& c )
    {
        x.PurgeArray();
        for ( int i = 0; i < c.n; i++ )
        {
            E e;
            Sh<E>::fill( e, c );
            x.AppendArrayElement( e );
        }
    }
    static Node doc( Ctx& c )
    {
        Node r = Node::MkArr();
        for ( int i = 0; i < c.n; i++ )
            r.a.push_back( Sh<E>::doc( c ) );
        return r;
    }
    static void ids( const Array<E>& x, std::vector<int>& v )
    {
        for ( const E& e : x )
            Sh<E>::ids( e, v );
    }
};
template <class E>
struct Sh<std::vector<E>>
{
    static void fill( std::vector<E>& x, Ctx& c )
    {
        x.clear();
        x.resize( size_t( c.n ) );
        for ( E& e : x )
            Sh<E>::fill( e, c );
    }
    static Node doc( Ctx& c ) { return Sh<Array<E>>::doc( c ); }
    static void ids( const std::vector<E>& x, std::vector<int>& v )
    {
        for ( const E& e : x )
            Sh<E>::ids( e, v );
    }
};
template <class E>
struct Sh<std::map<std::string, E>>
{
    static void fill( std::map<std::string, E>& x, Ctx& c )
    {
        x.clear();
        for ( int i = 0; i < c.n; i++ )
            Sh<E>::fill( x[ NameOf( i ) ], c );
    }
    static Node doc( Ctx& c )
    {
        Node r = Node::MkObj();
        for ( int i = 0; i < c.n; i++ )
            r.set( NameOf( i ), Sh<E>::doc( c ) );
        return r;
    }
    static void ids( const std::map<std::string, E>& x, std::vector<int>& v )
    {
        for ( auto& e : x )
            Sh<E>::ids( e.second, v );
    }
};
template <class E>
struct Sh<ObjectMap<E>>
{
    static void fill( ObjectMap<E>& x, Ctx& c )
    {
        x.PurgeMap();
        for ( int i = 0; i < c.n; i++ )
        {
            auto* e = new ObjectMapElement<E>;
            e->name = NameOf( i ).c_str();
            Sh<E>::fill( e->data, c );
            x.InsertMapElement( e );
        }
    }
    static Node doc( Ctx& c ) { return Sh<std::map<std::string, E>>::doc( c ); }
    static void ids( const ObjectMap<E>& x, std::vector<int>& v )
    {
        for ( auto* e : x )
            Sh<E>::ids( e->data, v );
    }
};

namespace f
{
    using P = probe::F;
#include "own_shapes.h"
} // namespace f
namespace m
{
    using P = probe::M;
#include "own_shapes.h"
} // namespace m
namespace c
{
    using P = probe::C;
#include "own_shapes.h"
} // namespace c

#define NS f
#include "own_models.h"
#undef NS
#define NS m
#include "own_models.h"
#undef NS
#define NS c
#include "own_models.h"
#undef NS

// ---------------------------------------------------------------- one history

struct Step
{
    char op; // S, D, V
    int  fail, how;
    bool late;
};

template <class X>
struct World
{
    static int Total( Ctx c )
    {
        Sh<X>::doc( c );
        return c.next - 1;
    }

    // Every step is an operation on the same value, target and documents.
    static bool Run( const Ctx& ctx, const std::vector<Step>& steps, std::string& why )
    {
        StructuredData    made, read;
        Node              full, part; // what the value makes; what is read
        std::vector<int>  want;
        X                 value, target;
        probe::Reset();
        {
            Ctx c  = ctx;
            c.opt  = true;
            c.more = false;
            Ctx d  = c;
            full   = Sh<X>::doc( c );
            Sh<X>::fill( value, d );
            c    = ctx;
            part = Sh<X>::doc( c );
        }
        if ( Parse( read, ref::Text( part ) ).status != Status::kOk )
        {
            why = "the document does not parse";
            return false;
        }
        for ( size_t i = 0; i < steps.size(); i++ )
        {
            const Step& s     = steps[ i ];
            int         total = 0;
            {
                Ctx c = ctx;
                if ( s.op == 'S' )
                    c.opt = true;
                total = Total( c );
            }
            bool fails = s.fail >= 0 && s.fail < total;
            probe::Reset( fails ? s.fail : -1, s.how, s.late );
            Status got = Status::kOk;
            switch ( s.op )
            {
                case 'S': got = made.SerializeFrom( value ); break;
                case 'D': got = read.DeserializeTo( target ); break;
                case 'V': got = C4::Json::Validate( static_cast<const StructuredData&>( read ), static_cast<const X&>( target ) ); break;
            }
            probe::failAt = -1;
            auto bad = [ & ]( const std::string& t )
            {
                why = "operation " + std::to_string( i + 1 ) + " (" + s.op + ( fails ? ", failing at call " + std::to_string( s.fail + 1 ) : "" ) + "): " + t;
                return false;
            };
            Status want = fails ? probe::Expected() : Status::kOk;
            if ( got != want )
                return bad( "the status is " + std::to_string( int( got ) ) + ", not " + std::to_string( int( want ) ) );
            int calls = fails ? s.fail + 1 : total;
            if ( probe::calls != calls )
                return bad( std::to_string( probe::calls ) + " calls of own functions, not " + std::to_string( calls ) );
            for ( int k = 0; k < calls && k < probe::kLog; k++ )
                if ( probe::log[ k ].op != s.op || probe::log[ k ].id != k + 1 )
                    return bad( std::string( "call " ) + std::to_string( k + 1 ) + " is " + probe::log[ k ].op + std::to_string( probe::log[ k ].id ) );
            std::string problem;
            if ( s.op == 'S' && !fails && !ref::Equal( Tree( made.GetRootJsonValue(), &problem ), full, false ) )
                return bad( "the document is " + ref::Text( Tree( made.GetRootJsonValue() ) ) + problem + ", not " + ref::Text( full ) );
            if ( s.op == 'S' && fails && made.GetRootJsonValue() && Tree( made.GetRootJsonValue() ).k == Node::Bad )
                return bad( "what is left is no document" );
            if ( !ref::Equal( Tree( read.GetRootJsonValue(), &problem ), part, false ) )
                return bad( "the document that is read changes to " + ref::Text( Tree( read.GetRootJsonValue() ) ) + problem );
            if ( s.op == 'D' && !fails )
            {
                std::vector<int> ids;
                Sh<X>::ids( target, ids );
                std::vector<int> held;
                for ( int id : ids )
                    if ( id )
                        held.push_back( id );
                if ( held.size() != size_t( total ) )
                    return bad( std::to_string( held.size() ) + " elements are read, not " + std::to_string( total ) );
                for ( int k = 0; k < total; k++ )
                    if ( held[ size_t( k ) ] != k + 1 )
                        return bad( "element " + std::to_string( k + 1 ) + " is " + std::to_string( held[ size_t( k ) ] ) );
            }
        }
        return true;
    }
};

struct Entry
{
    const char* name;
    int ( *total )( Ctx );
    bool ( *run )( const Ctx&, const std::vector<Step>&, std::string& );
    bool sized;
};
template <class X>
static Entry Make( const char* name, bool sized )
{
    return { name, World<X>::Total, World<X>::Run, sized };
}

static const std::vector<Entry>& Entries()
{
#define ALL( ns )                                                                                                                                             \
    Make<ns::P>( #ns " alone", false ), Make<ns::Req>( #ns " required", false ), Make<ns::Opt>( #ns " optional", false ), Make<ns::ReqM>( #ns " in a class", false ),                   \
        Make<Array<ns::P>>( #ns " array", true ), Make<std::vector<ns::P>>( #ns " vector", true ), Make<ObjectMap<ns::P>>( #ns " ObjectMap", true ),                                     \
        Make<std::map<std::string, ns::P>>( #ns " map", true ), Make<Array<Array<ns::P>>>( #ns " array of arrays", true ),                                                             \
        Make<std::vector<std::map<std::string, ns::P>>>( #ns " vector of maps", true ), Make<std::map<std::string, std::vector<ns::P>>>( #ns " map of vectors", true ),                  \
        Make<ObjectMap<Array<ns::P>>>( #ns " ObjectMap of arrays", true ), Make<ns::Mix>( #ns " mixed", true ), Make<Array<ns::Req>>( #ns " array of structs", true ),                   \
        Make<std::vector<ns::ReqM>>( #ns " vector of classes", true ), Make<std::map<std::string, ns::Opt>>( #ns " map of structs", true ), Make<ObjectMap<ns::ReqM>>( #ns " ObjectMap of classes", true ), \
        Make<ns::Deep>( #ns " nested", true )
    static const std::vector<Entry> e = { ALL( f ), ALL( m ), ALL( c ), Make<f::Un>( "f unnamed", false ), Make<m::Un>( "m unnamed", false ) };
    return e;
}

// Case: shape, n, bits (1 optional members, 2 undescribed members), then per step: op, failing call + 1, how, late.
static bool Run( const std::string& c, std::string& why )
{
    const Entry& e = Entries().at( uint8_t( c[ 0 ] ) );
    Ctx          ctx;
    ctx.n    = c[ 1 ];
    ctx.opt  = c[ 2 ] & 1;
    ctx.more = c[ 2 ] & 2;
    std::vector<Step> steps;
    for ( size_t i = 3; i + 3 < c.size(); i += 4 )
        steps.push_back( { c[ i ], uint8_t( c[ i + 1 ] ) - 1, c[ i + 2 ], c[ i + 3 ] == 1 } );
    alloc::mismatch = false;
    why.reserve( 2000 );
    long l0 = alloc::live;
    if ( !e.run( ctx, steps, why ) )
        return false;
    if ( alloc::live != l0 || alloc::mismatch )
    {
        why = alloc::mismatch ? "memory is released by another form of delete" : std::to_string( alloc::live - l0 ) + " blocks are not released";
        return false;
    }
    return true;
}

static std::string Show( const std::string& c )
{
    std::string s = std::string( Entries()[ uint8_t( c[ 0 ] ) ].name ) + " of " + std::to_string( int( c[ 1 ] ) ) + ( c[ 2 ] & 1 ? "" : ", optional members absent" ) + ( c[ 2 ] & 2 ? ", more members" : "" ) + ":";
    for ( size_t i = 3; i + 3 < c.size(); i += 4 )
    {
        s += std::string( " " ) + c[ i ];
        if ( c[ i + 1 ] )
            s += std::string( " failing " ) + ( c[ i + 3 ] ? "after" : "at" ) + " call " + std::to_string( int( uint8_t( c[ i + 1 ] ) ) ) +
                 ( c[ i + 2 ] >= probe::kStatuses ? " by exception " + std::to_string( c[ i + 2 ] - probe::kStatuses ) : " with status " + std::to_string( c[ i + 2 ] + 1 ) );
        s += ";";
    }
    return s;
}

static void Enumerate( fw::Engine& e )
{
    bool                th = e.thorough;
    const size_t        k  = Entries().size();
    const int           maxN = th ? 4 : 3;
    auto step = []( char op, int fail, int how, bool late ) { return std::string( 1, op ) + char( fail + 1 ) + char( how ) + char( late ); };
    auto each = [ & ]( uint64_t u, std::function<void( const std::string&, int )> f ) // shape and variants
    {
        const Entry& x = Entries()[ u ];
        for ( int n = 0; n <= ( x.sized ? maxN : 0 ); n++ )
            for ( int bits = 0; bits < 4; bits++ )
            {
                Ctx c;
                c.n    = n;
                c.opt  = true;
                f( std::string( 1, char( u ) ) + char( n ) + char( bits ), x.total( c ) );
            }
    };
    auto run = [ & ]( const std::string& s )
    {
        e.check( s );
        e.step( ( s.size() - 3 ) / 4 );
        std::string from = s.substr( 0, s.size() - 4 );
        e.state( fw::HashStr( from ) );
        e.state( fw::HashStr( s ) );
        e.trans( fw::Mix( fw::HashStr( from ), fw::HashStr( s ) ) );
    };
    // Every call failing in every way, then the same operation and another one.
    e.phase( "one failure", k,
             [ & ]( uint64_t u )
             {
                 each( u,
                       [ & ]( const std::string& b, int total )
                       {
                           for ( char op : { 'S', 'D', 'V' } )
                           {
                               run( b + step( op, -1, 0, false ) );
                               for ( int i = 0; i < total; i++ )
                                   for ( int h = 0; h < probe::kHows; h++ )
                                       for ( int late = 0; late < 2; late++ )
                                           for ( char op2 : { 'S', 'D', 'V' } )
                                               run( b + step( op, i, h, late ) + step( op2, -1, 0, false ) );
                           }
                       } );
             } );
    // Larger containers.
    e.phase( "sizes", k,
             [ & ]( uint64_t u )
             {
                 const Entry& x = Entries()[ u ];
                 for ( int n = x.sized ? maxN + 1 : 99; n <= 40; n += n < 18 || th ? 1 : 5 )
                 {
                     Ctx c;
                     c.n              = n;
                     int         total = x.total( c );
                     std::string b     = std::string( 1, char( u ) ) + char( n ) + char( n & 3 );
                     for ( char op : { 'S', 'D', 'V' } )
                     {
                         run( b + step( op, -1, 0, false ) + step( op, -1, 0, false ) );
                         for ( int i : { 0, n / 2, n - 1, n, n + 1, total - 2, total - 1 } )
                             if ( i < 250 && i < total )
                                 run( b + step( op, i, 22, i % 2 ) + step( op, -1, 0, false ) );
                     }
                 }
             } );
    // Histories of failures and successes.
    e.phase( "histories", k * 3,
             [ & ]( uint64_t u )
             {
                 each( u / 3,
                       [ & ]( const std::string& b, int total )
                       {
                           std::vector<std::string> ops;
                           for ( char op : { 'S', 'D', 'V' } )
                           {
                               ops.push_back( step( op, -1, 0, false ) );
                               for ( int i = 0; i < total; i++ )
                                   if ( i < 2 || i + 1 == total || th )
                                       for ( int h : { 22, probe::kStatuses + 1 } )
                                           ops.push_back( step( op, i, h, i % 2 ) );
                           }
                           std::function<void( std::string, int )> go = [ & ]( std::string s, int left )
                           {
                               if ( e.stopped() )
                                   return;
                               if ( left == 0 )
                                   return run( s );
                               for ( auto& o : ops )
                                   go( s + o, left - 1 );
                           };
                           for ( size_t i = u % 3; i < ops.size(); i += 3 )
                               go( b + ops[ i ], ( total < 3 ? 2 : 1 ) + th );
                       } );
             } );
}

int main( int argc, char** argv )
{
    return fw::Main( argc, argv, Enumerate, Run, Show );
}
