// C22: typed access, member lookup and iteration over every value of a document.
#include "alloc.h"
#include "fw.h"
#include "lib.h"
#include "texts.h"

using namespace lib;
using ref::Node;

static std::string why_;
static uint64_t    looks;

static bool Bad( const std::string& s )
{
    why_ = s;
    return false;
}

// Names to look for besides the ones that are there.
static std::vector<std::string> Near( const Node& o )
{
    std::set<std::string> s = { "", "a", "A", "b", "absent", "\xC3\xA9", "z", "\x01" };
    size_t                n = 0;
    for ( auto& m : o.o )
    {
        if ( n++ > 40 )
            break;
        std::string x = m.first;
        s.insert( x + "a" );
        s.insert( x + "\x01" );
        s.insert( x + "\xFF" );
        if ( !x.empty() )
        {
            s.insert( x.substr( 0, x.size() - 1 ) );
            s.insert( x.substr( 1 ) );
            for ( int d : { -1, 1, 32, -32, 128 } )
            {
                std::string y = x;
                y.back()      = char( y.back() + d );
                if ( y.back() )
                    s.insert( y );
                y         = x;
                y[ 0 ]    = char( y[ 0 ] + d );
                if ( y[ 0 ] )
                    s.insert( y );
            }
        }
    }
    return std::vector<std::string>( s.begin(), s.end() );
}

template <class T>
static bool Pair( Value* v, bool has, const char* what )
{
    const Value* c = v;
    T*           p = v->GetDataAsPointerTo<T>();
    const T*     q = c->GetDataAsPointerTo<T>();
    looks += 2;
    if ( ( p != nullptr ) != has )
        return Bad( std::string( "asked for " ) + what + ", a value " + ( p ? "of another kind answers" : "of that kind does not answer" ) );
    if ( p != q )
        return Bad( std::string( "asked for " ) + what + ", constant and changeable access differ" );
    return true;
}

static bool Check( Value* v, const Node& n );

static bool Members( ObjectValue* o, const Node& n )
{
    const ObjectValue* c = o;
    // Iteration: each member once, in ascending order.
    std::vector<const std::pair<std::string, Node>*> sorted;
    for ( auto& m : n.o )
        sorted.push_back( &m );
    std::sort( sorted.begin(), sorted.end(), []( auto a, auto b ) { return a->first < b->first; } );
    size_t i = 0;
    for ( Value* m : *o )
    {
        if ( i >= sorted.size() )
            return Bad( "iteration visits more members than there are" );
        std::string name = static_cast<const char*>( m->name );
        if ( name != sorted[ i ]->first )
            return Bad( "iteration visits \"" + fw::Show( name ) + "\" as number " + std::to_string( i ) + ", not \"" + fw::Show( sorted[ i ]->first ) + "\"" );
        if ( m->name.GetStringLength() != int( name.size() ) || name != static_cast<const char*>( m->GetKey() ) )
            return Bad( "the name of a member is inconsistent" );
        i++;
    }
    if ( i != sorted.size() )
        return Bad( "iteration visits " + std::to_string( i ) + " members of " + std::to_string( sorted.size() ) );
    i = 0;
    for ( const Value* m : *c )
        if ( i >= sorted.size() || sorted[ i++ ]->first != static_cast<const char*>( m->name ) )
            return Bad( "iteration over a constant object differs" );
    if ( i != sorted.size() || o->GetMapElementCount() != int32( sorted.size() ) || o->Empty() != sorted.empty() )
        return Bad( "the number of members is wrong" );

    auto look = [ & ]( const std::string& name, const Node* want ) -> bool
    {
        Value *        a = o->FindMapElement( name.c_str() ), *b = c->FindMapElement( name.c_str() );
        String<>       key( name.c_str() );
        Value*         d = o->FindMapElement( key );
        looks += 9;
        if ( a != b || a != d )
            return Bad( "looking up \"" + fw::Show( name ) + "\" in different ways gives different members" );
        if ( ( a != nullptr ) != ( want != nullptr ) )
            return Bad( "looking up \"" + fw::Show( name ) + "\" " + ( a ? "finds a member that is not there" : "does not find the member" ) );
        if ( a && name != static_cast<const char*>( a->name ) )
            return Bad( "looking up \"" + fw::Show( name ) + "\" finds \"" + fw::Show( static_cast<const char*>( a->name ) ) + "\"" );
        const void* p[] = { o->FindString( name.c_str() ), o->FindNumber( name.c_str() ), o->FindBool( name.c_str() ), o->FindJsonNull( name.c_str() ), o->FindJsonValueArray( name.c_str() ),
                            o->FindJsonObjectValue( name.c_str() ) };
        const void* q[ 6 ] = {};
        if ( a )
        {
            q[ 0 ] = a->GetDataAsPointerTo<String<>>();
            q[ 1 ] = a->GetDataAsPointerTo<double>();
            q[ 2 ] = a->GetDataAsPointerTo<bool>();
            q[ 3 ] = a->GetDataAsPointerTo<Null>();
            q[ 4 ] = a->GetDataAsPointerTo<Array<Value*>>();
            q[ 5 ] = static_cast<const Value*>( a )->AsJsonObjectValue();
        }
        static const char* kind[] = { "string", "number", "boolean", "null", "array", "object" };
        for ( int k = 0; k < 6; k++ )
            if ( p[ k ] != q[ k ] )
                return Bad( "looking up \"" + fw::Show( name ) + "\" as " + kind[ k ] + ( p[ k ] ? " gives something else" : " gives nothing" ) );
        return true;
    };
    for ( auto& m : n.o )
        if ( !look( m.first, &m.second ) )
            return false;
    for ( auto& x : Near( n ) )
        if ( !look( x, n.get( x ) ) )
            return false;
    for ( auto& m : n.o )
        if ( !Check( o->FindMapElement( m.first.c_str() ), m.second ) )
            return Bad( why_ + " (member \"" + fw::Show( m.first ) + "\")" );
    return true;
}

static bool Check( Value* v, const Node& n )
{
    if ( !v )
        return Bad( "there is no value" );
    if ( !Pair<String<>>( v, n.k == Node::Str, "a string" ) || !Pair<double>( v, n.k == Node::Num, "a number" ) || !Pair<bool>( v, n.k == Node::Bool, "a boolean" ) ||
         !Pair<Null>( v, n.k == Node::Null, "null" ) || !Pair<Array<Value*>>( v, n.k == Node::Arr, "an array" ) )
        return false;
    const Value* c = v;
    if ( ( v->AsJsonObjectValue() != nullptr ) != ( n.k == Node::Obj ) || v->AsJsonObjectValue() != c->AsJsonObjectValue() )
        return Bad( "asked for an object, a value answers wrongly" );
    switch ( n.k )
    {
        case Node::Str:
        {
            const String<>& s = *c->GetDataAsPointerTo<String<>>();
            if ( n.s != static_cast<const char*>( s ) || s.GetStringLength() != int( n.s.size() ) )
                return Bad( "a string is \"" + fw::Show( static_cast<const char*>( s ) ) + "\", not \"" + fw::Show( n.s ) + "\"" );
            return true;
        }
        case Node::Num: return ref::Bits( *c->GetDataAsPointerTo<double>() ) == ref::Bits( n.d ) || Bad( "a number differs" );
        case Node::Bool: return *c->GetDataAsPointerTo<bool>() == n.b || Bad( "a boolean differs" );
        case Node::Arr:
        {
            const Array<Value*>& a = *c->GetDataAsPointerTo<Array<Value*>>();
            if ( a.GetArrayElementCount() != int32( n.a.size() ) )
                return Bad( "an array has " + std::to_string( a.GetArrayElementCount() ) + " elements, not " + std::to_string( n.a.size() ) );
            for ( size_t i = 0; i < n.a.size(); i++ )
                if ( !Check( a[ int32( i ) ], n.a[ i ] ) )
                    return Bad( why_ + " (element " + std::to_string( i ) + ")" );
            return true;
        }
        case Node::Obj: return Members( v->AsJsonObjectValue(), n );
        default: return true;
    }
}

// Change every scalar through its pointer, in the document and in the model.
static void Change( Value* v, Node& n, int& k )
{
    k++;
    if ( n.k == Node::Str )
    {
        n.s = k % 2 ? "changed" : "changed to a text that is longer than the local storage of a string " + std::to_string( k );
        *v->GetDataAsPointerTo<String<>>() = n.s.c_str();
    }
    if ( n.k == Node::Num )
        *v->GetDataAsPointerTo<double>() = n.d = k + 0.25;
    if ( n.k == Node::Bool )
        *v->GetDataAsPointerTo<bool>() = n.b = !n.b;
    for ( size_t i = 0; i < n.a.size(); i++ )
        Change( ( *v->GetDataAsPointerTo<Array<Value*>>() )[ int32( i ) ], n.a[ i ], k );
    for ( auto& m : n.o )
        Change( v->AsJsonObjectValue()->FindMapElement( m.first.c_str() ), m.second, k );
}

// Case: text of the document
static bool Run( const std::string& text, std::string& why )
{
    StructuredData sd;
    ParseResult    r = Parse( sd, text );
    if ( r.status != Status::kOk )
        return true; // C01
    const StructuredData& cs = sd;
    Node                  n  = ref::Build( text );
    if ( sd.GetRootJsonValue() != cs.GetRootJsonValue() )
    {
        why = "constant and changeable access to the root differ";
        return false;
    }
    if ( !Check( sd.GetRootJsonValue(), n ) )
    {
        why = why_;
        return false;
    }
    int k = 0;
    Change( sd.GetRootJsonValue(), n, k );
    if ( !Check( sd.GetRootJsonValue(), n ) )
    {
        why = "after changing all scalars: " + why_;
        return false;
    }
    return true;
}

static void Enumerate( fw::Engine& e )
{
    bool th  = e.thorough;
    auto doc = [ & ]( const std::string& t )
    {
        if ( e.stopped() )
            return;
        looks = 0;
        e.check( t );
        e.step( looks );
        e.state( fw::HashStr( t ) );
        e.trans( fw::Mix( fw::HashStr( t ), looks ) );
    };
    for ( int n = 1; n <= ( th ? 7 : 6 ); n++ )
    {
        const std::vector<Node>& t = texts::Trees( n );
        e.phase( ( "trees of " + std::to_string( n ) ).c_str(), ( t.size() + 63 ) / 64,
                 [ & ]( uint64_t u )
                 {
                     for ( size_t i = u * 64; i < t.size() && i < ( u + 1 ) * 64; i++ )
                         doc( ref::Text( t[ i ] ) );
                 } );
    }
    e.phase( "sample documents", texts::Documents().size(), [ & ]( uint64_t u ) { doc( texts::Documents()[ u ] ); } );
    // Every kind under every pair of names.
    static const char* values[] = { "null", "true", "false", "1", "-0.0", "\"\"", "\"text\"", "[]", "[1]", "{}", "{\"a\":1}" };
    e.phase( "kinds of two members", 11 * 11,
             [ & ]( uint64_t u )
             {
                 for ( const char* x : { "a", "b", "", "aa", "\\u00e9" } )
                     for ( const char* y : { "a", "b", "", "aa", "\\u00e9" } )
                         doc( std::string( "{\"" ) + x + "\":" + values[ u / 11 ] + ",\"" + y + "\":" + values[ u % 11 ] + "}" );
                 doc( std::string( "[" ) + values[ u / 11 ] + "," + values[ u % 11 ] + "]" );
             } );
    // Every sequence (with repetitions) of names that differ in length, case, sign bit or by being prefixes.
    static const char* names[] = { "", "a", "aa", "ab", "b", "A", "\\u0001", "\\u007f", "\\u0080", "\\u00e9", "z\\u00e9", "\\uffff", "\\ud83d\\ude00", "name longer than the local storage of strings", "name longer than the local storage of string" };
    const int          nn      = sizeof names / sizeof *names;
    int                len     = th ? 6 : 5;
    e.phase( "sequences of names", nn * nn,
             [ & ]( uint64_t u )
             {
                 std::function<void( std::string, int, int )> go = [ & ]( std::string s, int k, int left )
                 {
                     doc( s + "}" );
                     if ( left && !e.stopped() )
                         for ( int i = 0; i < nn; i++ )
                             go( s + ",\"" + names[ i ] + "\":" + values[ k % 11 ], k + 3, left - 1 );
                 };
                 if ( u < nn )
                     doc( std::string( "{\"" ) + names[ u ] + "\":" + values[ u % 11 ] + "}" );
                 go( std::string( "{\"" ) + names[ u / nn ] + "\":1,\"" + names[ u % nn ] + "\":\"x\"", 2, len - 2 );
             } );
    // Every kind of value under long names, alone and beside names that differ at the end only.
    static const std::vector<int> lens = { 15, 16, 31, 32, 62, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 100000 };
    e.phase( "kinds under long names", lens.size() * 11,
             [ & ]( uint64_t u )
             {
                 std::string n( size_t( lens[ u / 11 ] ), 'n' );
                 doc( "{\"" + n + "\":" + values[ u % 11 ] + "}" );
                 doc( "{\"" + n + "\":" + values[ u % 11 ] + ",\"" + n + "m\":1,\"" + n.substr( 1 ) + "o\":\"x\",\"" + n.substr( 1 ) + "\":[]}" );
             } );
    // Every one-byte and two-byte name over all ASCII and some two-byte characters.
    e.phase( "all pairs of characters as names", 256,
             [ & ]( uint64_t u )
             {
                 auto esc = []( unsigned c )
                 {
                     char b[ 8 ];
                     snprintf( b, sizeof b, "\\u%04x", c );
                     return std::string( b );
                 };
                 if ( u == 0 )
                     return;
                 for ( unsigned y = 1; y < 256; y++ )
                     if ( y != u )
                         doc( "{\"" + esc( unsigned( u ) ) + "\":1,\"" + esc( y ) + "\":2,\"" + esc( unsigned( u ) ) + esc( y ) + "\":3}" );
             } );
    static const std::vector<int> many = { 1000, 1024, 1025, 3000, 4096, 4097, 8192, 10000, 16385 };
    const int                     few  = th ? 400 : 160;
    e.phase( "many members", uint64_t( few ) + many.size(),
             [ & ]( uint64_t u )
             {
                 for ( int order = 0; order < 4; order++ )
                 {
                     if ( int( u ) >= few && !th && order % 2 == 0 )
                         continue;
                     std::string s = "{";
                     int         n = int( u ) < few ? int( u ) : many[ u - uint64_t( few ) ];
                     for ( int i = 0; i < n; i++ )
                     {
                         int k = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? ( i % 2 ? n - 1 - i / 2 : i / 2 ) : int( ( uint64_t( i ) * 7919 ) % 100003 );
                         s += ( i ? "," : "" ) + std::string( "\"k" ) + std::to_string( k ) + "\":" + values[ k % 11 ];
                     }
                     doc( s + "}" );
                     s[ 0 ] = '[';
                 }
             } );
}

int main( int argc, char** argv )
{
    return fw::Main( argc, argv, Enumerate, Run );
}
