// C27: documents edited in place, through the pointers and functions the interface gives for their values.
#include "alloc.h"
#include "fw.h"
#include "lib.h"
#include "texts.h"
#include <map>
#include <string>
#include <vector>

using namespace lib;
using ref::Node;

// A described type with free functions, one with member functions, and one whose serialization fails behind a member.
struct Plain
{
    double   a = 0;
    String<> b;
};
#define PLAIN "a", object.a, C4::Json::optional, "b", object.b
DEFINE_JSON4C4_FUNCTIONS( Plain, PLAIN )

class Member
{
    bool           a = true;
    Array<String<>> list;

public:
    Member()
    {
        list.AppendArrayElement( String<>( "one" ) );
        list.AppendArrayElement( String<>( "two" ) );
    }
#define MEMBER "list", list, "a", a
    DEFINE_JSON4C4_MEMBER_FUNCTIONS( MEMBER )
};

struct Broken
{
    double a = 1;
};
inline Status Serialize( Value* v, const Broken& b ) noexcept
{
    Status s = C4::Json::SerializeProto( v, "a", b.a );
    return s == Status::kOk ? Status::kNameNotPresent : s;
}

static const char* kLong = "a name and a text longer than the room that strings have of their own";

static std::string why_;
static bool        Bad( const std::string& s )
{
    if ( why_.empty() )
        why_ = s;
    return false;
}

static Node NumArr( std::vector<double> v )
{
    Node n = Node::MkArr();
    for ( double d : v )
        n.a.push_back( Node::MkNum( d ) );
    return n;
}
static Node StrArr( std::vector<std::string> v )
{
    Node n = Node::MkArr();
    for ( auto& d : v )
        n.a.push_back( Node::MkStr( d ) );
    return n;
}

// Model of serializing something into a value.
static Status Put( Node& n, const Node& x )
{
    if ( n.k != x.k )
        return Status::kInvalidValueType;
    n = x;
    return Status::kOk;
}
static Status PutName( Node& n, const std::string& name, const Node& x )
{
    if ( n.k == Node::Arr )
        n.a.push_back( x );
    else if ( n.k == Node::Obj )
    {
        if ( !n.get( name ) )
            n.set( name, x );
    }
    else
        return Status::kInvalidValueType;
    return Status::kOk;
}
static Status PutNames( Node& n, const std::vector<std::pair<std::string, Node>>& m )
{
    for ( auto& p : m )
    {
        Status s = PutName( n, p.first, p.second );
        if ( s != Status::kOk )
            return s;
    }
    return Status::kOk;
}
static Node FromNames( const std::vector<std::pair<std::string, Node>>& m )
{
    Node n = Node::MkObj();
    PutNames( n, m );
    return n;
}

static Plain MkPlain()
{
    Plain p;
    p.a = 0.1;
    p.b = "plain";
    return p;
}
static const std::vector<std::pair<std::string, Node>>& PlainNode()
{
    static const std::vector<std::pair<std::string, Node>> m = { { "a", Node::MkNum( 0.1 ) }, { "b", Node::MkStr( "plain" ) } };
    return m;
}
static const std::vector<std::pair<std::string, Node>>& MemberNode()
{
    static const std::vector<std::pair<std::string, Node>> m = { { "list", StrArr( { "one", "two" } ) }, { "a", Node::MkBool( true ) } };
    return m;
}

static void FillMap( ObjectMap<double>& m, std::vector<std::pair<const char*, double>> v )
{
    for ( auto& p : v )
    {
        auto* e = new ObjectMapElement<double>;
        e->name = p.first;
        e->data = p.second;
        m.InsertMapElement( e );
    }
}

struct Op
{
    const char*                                           name;
    std::function<bool( const Node& )>                    can;  // applicable to this value of the model
    std::function<Status( Node& root, Node& n )>          model;
    std::function<Status( Value* root, Value* v, Node& )> real; // with the model of v as it was before
    bool                                                  main;
};

static bool Any( const Node& )
{
    return true;
}
template <int K>
static bool Is( const Node& n )
{
    return n.k == K;
}
static bool Container( const Node& n )
{
    return n.k == Node::Arr || n.k == Node::Obj;
}
static bool Filled( const Node& n )
{
    return n.k == Node::Arr && !n.a.empty();
}

static const std::vector<Op>& Ops()
{
    static std::vector<Op> v;
    if ( !v.empty() )
        return v;
    auto scalar = [ & ]( const char* name, auto can, std::function<void( Node& )> model, std::function<void( Value* )> real, bool main )
    {
        v.push_back( { name, can,
                       [ model ]( Node&, Node& n )
                       {
                           model( n );
                           return Status::kOk;
                       },
                       [ real ]( Value*, Value* x, Node& )
                       {
                           real( x );
                           return Status::kOk;
                       },
                       main } );
    };
    scalar( "= short text", Is<Node::Str>, []( Node& n ) { n.s = "s"; }, []( Value* x ) { *x->GetDataAsPointerTo<String<>>() = "s"; }, true );
    scalar( "= long text", Is<Node::Str>, []( Node& n ) { n.s = kLong; }, []( Value* x ) { *x->GetDataAsPointerTo<String<>>() = kLong; }, false );
    scalar( "+= text", Is<Node::Str>, []( Node& n ) { n.s += "\n\xC3\xA9"; }, []( Value* x ) { *x->GetDataAsPointerTo<String<>>() += "\n\xC3\xA9"; }, false );
    scalar( "= number", Is<Node::Num>, []( Node& n ) { n.d = n.d * 0.1 - 1; }, []( Value* x ) { *x->GetDataAsPointerTo<double>() = *x->GetDataAsPointerTo<double>() * 0.1 - 1; }, false );
    scalar( "= -0", Is<Node::Num>, []( Node& n ) { n.d = -0.0; }, []( Value* x ) { *x->GetDataAsPointerTo<double>() = -0.0; }, true );
    scalar( "flip", Is<Node::Bool>, []( Node& n ) { n.b = !n.b; }, []( Value* x ) { *x->GetDataAsPointerTo<bool>() = !*x->GetDataAsPointerTo<bool>(); }, true );

    // Serialize into a value.
    auto put = [ & ]( const char* name, Node x, std::function<Status( Value* )> real, bool main )
    { v.push_back( { name, Any, [ x ]( Node&, Node& n ) { return Put( n, x ); }, [ real ]( Value*, Value* y, Node& ) { return real( y ); }, main } ); };
    put( "number", Node::MkNum( 7 ), []( Value* x ) { return Serialize( x, 7.0 ); }, true );
    put( "string", Node::MkStr( "ser" ), []( Value* x ) { return Serialize( x, String<>( "ser" ) ); }, false );
    put( "std::string", Node::MkStr( kLong ), []( Value* x ) { return Serialize( x, std::string( kLong ) ); }, true );
    put( "boolean", Node::MkBool( true ), []( Value* x ) { return Serialize( x, true ); }, false );
    put( "null", Node::MkNull(), []( Value* x ) { return Serialize( x, Null() ); }, false );
    put( "empty array", Node::MkArr(), []( Value* x ) { return Serialize( x, Array<double>() ); }, true );
    put( "array of numbers", NumArr( { 1, 2 } ),
         []( Value* x )
         {
             Array<double> a;
             a.AppendArrayElement( 1.0 );
             a.AppendArrayElement( 2.0 );
             return Serialize( x, a );
         },
         true );
    put( "vector of strings", StrArr( { "p", kLong, "" } ), []( Value* x ) { return Serialize( x, std::vector<std::string>{ "p", kLong, "" } ); }, false );
    put( "vector of plain", [] { Node n = Node::MkArr(); n.a = { FromNames( PlainNode() ), FromNames( PlainNode() ) }; return n; }(), []( Value* x ) { return Serialize( x, std::vector<Plain>{ MkPlain(), MkPlain() } ); }, false );
    put( "object map", FromNames( { { "", Node::MkNum( 3 ) }, { "a", Node::MkNum( 1 ) }, { "new", Node::MkNum( 2 ) } } ),
         []( Value* x )
         {
             ObjectMap<double> m;
             FillMap( m, { { "new", 2 }, { "a", 1 }, { "", 3 } } );
             return Serialize( x, m );
         },
         true );
    put( "empty std::map", Node::MkObj(), []( Value* x ) { return Serialize( x, std::map<std::string, bool>() ); }, false );
    put( "std::map", FromNames( { { "a", Node::MkBool( true ) }, { "b", Node::MkBool( false ) } } ), []( Value* x ) { return Serialize( x, std::map<std::string, bool>{ { "b", false }, { "a", true } } ); }, false );

    // Serialize described members into a value.
    auto puts = [ & ]( const char* name, std::vector<std::pair<std::string, Node>> m, std::function<Status( Value* )> real, bool main )
    { v.push_back( { name, Any, [ m ]( Node&, Node& n ) { return PutNames( n, m ); }, [ real ]( Value*, Value* y, Node& ) { return real( y ); }, main } ); };
    puts( "plain members", PlainNode(), []( Value* x ) { return Serialize( x, MkPlain() ); }, true );
    puts( "members of member functions", MemberNode(), []( Value* x ) { return Serialize( x, Member() ); }, false );
    puts( "SerializeProto", { { "b", Node::MkNum( 5 ) }, { "b", Node::MkNum( 6 ) }, { "a", Node::MkBool( false ) } },
          []( Value* x )
          {
              const double five = 5, six = 6;
              const bool   f = false;
              return C4::Json::SerializeProto( x, "b", five, C4::Json::optional, "b", six, "a", f );
          },
          false );

    // Serialize under a name.
    auto under = [ & ]( const char* label, const char* name, Node x, std::function<Status( Value* )> real, bool main )
    {
        std::string key = name;
        v.push_back( { label, Any, [ x, key ]( Node&, Node& n ) { return PutName( n, key, x ); }, [ real ]( Value*, Value* y, Node& ) { return real( y ); }, main } );
    };
    under( "\"a\" : number", "a", Node::MkNum( 8 ), []( Value* x ) { return Serialize( x, "a", 8.0 ); }, true );
    under( "\"new\" : number", "new", Node::MkNum( 9 ), []( Value* x ) { return Serialize( x, "new", 9.0 ); }, true );
    under( "\"\" : string", "", Node::MkStr( "empty" ), []( Value* x ) { return Serialize( x, "", String<>( "empty" ) ); }, false );
    under( "long name : null", kLong, Node::MkNull(), []( Value* x ) { return Serialize( x, kLong, Null() ); }, false );
    under( "\"\\xC3\\xA9\" : boolean", "\xC3\xA9", Node::MkBool( false ), []( Value* x ) { return Serialize( x, "\xC3\xA9", false ); }, false );
    under( "\"b\" : array", "b", NumArr( { 4 } ),
           []( Value* x )
           {
               Array<double> a;
               a.AppendArrayElement( 4.0 );
               return Serialize( x, "b", a );
           },
           true );
    under( "\"m\" : map", "m", FromNames( { { "k", Node::MkNum( 1 ) } } ),
           []( Value* x )
           {
               ObjectMap<double> m;
               FillMap( m, { { "k", 1 } } );
               return Serialize( x, "m", m );
           },
           false );
    under( "\"p\" : plain", "p", FromNames( PlainNode() ), []( Value* x ) { return Serialize( x, "p", MkPlain() ); }, true );
    under( "\"a\" : member functions", "a", FromNames( MemberNode() ), []( Value* x ) { return Serialize( x, "a", Member() ); }, false );
    // One that fails: an object does not get it.
    for ( const char* name : { "a", "fresh" } )
        v.push_back( { name[ 0 ] == 'a' ? "\"a\" : broken" : "\"fresh\" : broken", Is<Node::Obj>, []( Node&, Node& ) { return Status::kNameNotPresent; }, [ name ]( Value*, Value* x, Node& ) { return Serialize( x, name, Broken() ); }, false } );

    // Elements.
    auto elements = [ & ]( const char* name, auto can, std::function<void( Node&, Node& )> model, std::function<void( Value*, Value* )> real, bool main )
    {
        v.push_back( { name, can,
                       [ model ]( Node& r, Node& n )
                       {
                           model( r, n );
                           return Status::kOk;
                       },
                       [ real ]( Value* r, Value* x, Node& )
                       {
                           real( r, x );
                           return Status::kOk;
                       },
                       main } );
    };
    auto arr = []( Value* x ) -> Array<Value*>& { return *x->GetDataAsPointerTo<Array<Value*>>(); };
    elements( "delete first element", Filled, []( Node&, Node& n ) { n.a.erase( n.a.begin() ); },
              [ arr ]( Value*, Value* x )
              {
                  delete arr( x )[ 0 ];
                  arr( x ).RemoveArrayElement( 0 );
              },
              true );
    elements( "delete last element", Filled, []( Node&, Node& n ) { n.a.pop_back(); },
              [ arr ]( Value*, Value* x )
              {
                  delete arr( x )[ arr( x ).GetArrayElementCount() - 1 ];
                  arr( x ).RemoveLastArrayElement();
              },
              false );
    elements( "exchange first and last element", Filled, []( Node&, Node& n ) { if ( n.a.size() > 1 ) std::swap( n.a.front(), n.a.back() ); },
              [ arr ]( Value*, Value* x )
              {
                  Array<Value*>& a = arr( x );
                  std::swap( a[ 0 ], a[ a.GetArrayElementCount() - 1 ] );
              },
              false );
    elements( "last element first", Filled,
              []( Node&, Node& n )
              {
                  Node e = n.a.back();
                  n.a.pop_back();
                  n.a.insert( n.a.begin(), e );
              },
              [ arr ]( Value*, Value* x )
              {
                  Array<Value*>& a = arr( x );
                  Value*         e = a[ a.GetArrayElementCount() - 1 ];
                  a.RemoveLastArrayElement();
                  a.InsertArrayElement( 0, e );
              },
              false );
    // The first element of an array becomes the last element or a member of the root.
    elements( "first element to the root", Filled,
              []( Node& r, Node& n )
              {
                  if ( !Container( r ) )
                      return;
                  Node e = n.a.front();
                  n.a.erase( n.a.begin() );
                  if ( r.k == Node::Arr )
                      r.a.push_back( e );
                  else if ( r.get( "moved" ) )
                      n.a.push_back( e );
                  else
                      r.set( "moved", e );
              },
              [ arr ]( Value* r, Value* x )
              {
                  ObjectValue*   o  = r->AsJsonObjectValue();
                  Array<Value*>* ra = r->GetDataAsPointerTo<Array<Value*>>();
                  if ( !o && !ra )
                      return;
                  Value* e = arr( x )[ 0 ];
                  arr( x ).RemoveArrayElement( 0 );
                  if ( ra )
                      ra->AppendArrayElement( e );
                  else
                  {
                      e->name = "moved";
                      if ( !o->InsertAccountedMapElement( e ) )
                          arr( x ).AppendArrayElement( e );
                  }
              },
              true );
    elements( "purge members", Is<Node::Obj>, []( Node&, Node& n ) { n.o.clear(); }, []( Value*, Value* x ) { x->AsJsonObjectValue()->PurgeAccountedMap(); }, false );
    return v;
}

// The values of the model in order, and the real ones at the same places.
static bool Pairs( Node& n, Value* v, std::vector<std::pair<Node*, Value*>>& out )
{
    out.emplace_back( &n, v );
    for ( size_t i = 0; i < n.a.size(); i++ )
    {
        Value* w = nullptr;
        if ( v )
        {
            Array<Value*>* a = v->GetDataAsPointerTo<Array<Value*>>();
            if ( !a || a->GetArrayElementCount() != int32( n.a.size() ) )
                return Bad( "an array has changed" );
            w = ( *a )[ int32( i ) ];
        }
        if ( !Pairs( n.a[ i ], w, out ) )
            return false;
    }
    for ( auto& m : n.o )
    {
        Value* w = nullptr;
        if ( v )
        {
            ObjectValue* o = v->AsJsonObjectValue();
            w              = o ? o->FindMapElement( m.first.c_str() ) : nullptr;
            if ( !w )
                return Bad( "a member has gone" );
        }
        if ( !Pairs( m.second, w, out ) )
            return false;
    }
    return true;
}

static std::string ReadAll( const char* path )
{
    std::string s;
    if ( FILE* f = fopen( path, "rb" ) )
    {
        char   b[ 65536 ];
        size_t n;
        while ( ( n = fread( b, 1, sizeof b, f ) ) > 0 )
            s.append( b, n );
        fclose( f );
    }
    return s;
}

template <class T, class Want>
static bool Reads( const Value* v, const Node& n, const char* what, const Want& want )
{
    T      x{};
    Status w  = want( n, nullptr );
    Status s1 = Validate( v, x ), s2 = Deserialize( v, x );
    if ( s1 != w || s2 != w )
        return Bad( std::string( "a value " ) + ref::Text( n ).substr( 0, 80 ) + " read as " + what + ": validation says " + StatusName( s1 ) + ", deserialization " + StatusName( s2 ) + ", not " + StatusName( w ) );
    if ( w == Status::kOk && want( n, &x ) != Status::kOk )
        return Bad( std::string( "a value " ) + ref::Text( n ).substr( 0, 80 ) + " read as " + what + " is another one" );
    for ( const char* name : { "a", "b", "new", "absent" } )
    {
        T           y{};
        const Node* m = n.k == Node::Obj ? n.get( name ) : nullptr;
        Status      z = n.k != Node::Obj ? Status::kInvalidValueType : !m ? Status::kNameNotPresent : want( *m, nullptr );
        s1            = Validate( v, name, y );
        s2            = Deserialize( v, name, y );
        if ( s1 != z || s2 != z )
            return Bad( std::string( "member " ) + name + " of " + ref::Text( n ).substr( 0, 80 ) + " read as " + what + ": validation says " + StatusName( s1 ) + ", deserialization " + StatusName( s2 ) + ", not " + StatusName( z ) );
        if ( z == Status::kOk && want( *m, &y ) != Status::kOk )
            return Bad( std::string( "member " ) + name + " of " + ref::Text( n ).substr( 0, 80 ) + " read as " + what + " is another one" );
    }
    return true;
}

// The model of reading: the status, or (with a result) whether the result is right.
static Status WantNum( const Node& n, const double* x )
{
    return n.k == Node::Num && ( !x || ref::Bits( *x ) == ref::Bits( n.d ) ) ? Status::kOk : Status::kInvalidValueType;
}
static Status WantStr( const Node& n, const String<>* x )
{
    return n.k == Node::Str && ( !x || n.s == static_cast<const char*>( *x ) ) ? Status::kOk : Status::kInvalidValueType;
}
static Status WantBool( const Node& n, const bool* x )
{
    return n.k == Node::Bool && ( !x || *x == n.b ) ? Status::kOk : Status::kInvalidValueType;
}
static Status WantNull( const Node& n, const Null* )
{
    return n.k == Node::Null ? Status::kOk : Status::kInvalidValueType;
}
static Status WantNums( const Node& n, const std::vector<double>* x )
{
    if ( n.k != Node::Arr || ( x && x->size() != n.a.size() ) )
        return Status::kInvalidValueType;
    for ( size_t i = 0; i < n.a.size(); i++ )
        if ( WantNum( n.a[ i ], x ? &( *x )[ i ] : nullptr ) != Status::kOk )
            return Status::kInvalidValueType;
    return Status::kOk;
}
static Status WantMap( const Node& n, const std::map<std::string, double>* x )
{
    if ( n.k != Node::Obj || ( x && x->size() != n.o.size() ) )
        return Status::kInvalidValueType;
    for ( auto& m : n.o )
        if ( ( x && !x->count( m.first ) ) || WantNum( m.second, x ? &x->at( m.first ) : nullptr ) != Status::kOk )
            return Status::kInvalidValueType;
    return Status::kOk;
}
static Status WantPlain( const Node& n, const Plain* x )
{
    if ( n.k != Node::Obj )
        return Status::kInvalidValueType;
    const Node *a = n.get( "a" ), *b = n.get( "b" );
    if ( !a )
        return Status::kNameNotPresent;
    Status s = WantNum( *a, x ? &x->a : nullptr );
    if ( s == Status::kOk && b )
        s = WantStr( *b, x ? &x->b : nullptr );
    return s;
}

static bool Whole( StructuredData& sd, Node& n )
{
    std::string problem;
    Node        t = Tree( sd.GetRootJsonValue(), &problem );
    if ( !ref::Equal( t, n, false ) )
        return Bad( problem.empty() ? "the document is " + ref::Text( t ).substr( 0, 300 ) + ", not " + ref::Text( n ).substr( 0, 300 ) : problem );
    std::vector<std::pair<Node*, Value*>> p;
    if ( !Pairs( n, sd.GetRootJsonValue(), p ) )
        return false;
    for ( auto& x : p )
    {
        const Value* v = x.second;
        if ( !Reads<double>( v, *x.first, "a number", WantNum ) || !Reads<String<>>( v, *x.first, "a string", WantStr ) || !Reads<bool>( v, *x.first, "a boolean", WantBool ) ||
             !Reads<Null>( v, *x.first, "null", WantNull ) || !Reads<std::vector<double>>( v, *x.first, "numbers", WantNums ) ||
             !Reads<std::map<std::string, double>>( v, *x.first, "a map of numbers", WantMap ) || !Reads<Plain>( v, *x.first, "a described type", WantPlain ) )
            return false;
    }
    char file[ 32 ];
    snprintf( file, sizeof file, "edited.%d", int( getpid() ) );
    Status s = sd.Write( file, 1, '\t' );
    if ( s != Status::kOk )
        return Bad( "writing fails: " + StatusName( s ) );
    std::string text = ReadAll( file );
    if ( !ref::Judge( text ).ok )
        return Bad( "the written text is not JSON: " + fw::Show( text ) );
    if ( !ref::Equal( ref::Build( text ), n, true ) )
        return Bad( "the written text is " + fw::Show( text ) + ", not (in this order) " + fw::Show( ref::Text( n ) ) );
    return true;
}

static const std::vector<std::string>& Docs()
{
    static const std::vector<std::string> d = {
        "{}", "[]", "{\"a\":1}", "[1]", "{\"a\":\"x\",\"b\":[]}", "{\"b\":{},\"a\":true}", "[[],{}]", "[\"x\",[1,2,3]]", "{\"new\":null,\"a\":{\"a\":1,\"b\":\"y\"}}", "[{\"a\":1},{\"a\":2}]", "{\"z\":1,\"y\":2,\"x\":[3,4]}",
        "\"text\"", "1.5", "true", "null", "{\"list\":[[\"deep\"]]}",
        // made by serialization
        "S:Plain", "S:Member", "S:Array", "S:Map",
    };
    return d;
}

static bool Start( const std::string& d, StructuredData* sd, Node& n )
{
    if ( d == "S:Plain" )
    {
        n = FromNames( PlainNode() );
        return !sd || sd->SerializeFrom( MkPlain() ) == Status::kOk;
    }
    if ( d == "S:Member" )
    {
        n = FromNames( MemberNode() );
        return !sd || sd->SerializeFrom( Member() ) == Status::kOk;
    }
    if ( d == "S:Array" )
    {
        n = NumArr( { 1, 2, 3 } );
        return !sd || sd->SerializeFrom( std::vector<double>{ 1, 2, 3 } ) == Status::kOk;
    }
    if ( d == "S:Map" )
    {
        n = FromNames( { { "a", NumArr( { 1 } ) }, { "b", NumArr( {} ) } } );
        return !sd || sd->SerializeFrom( std::map<std::string, std::vector<double>>{ { "b", {} }, { "a", { 1 } } } ) == Status::kOk;
    }
    n = ref::Build( d );
    return !sd || Parse( *sd, d ).status == Status::kOk;
}

// Case: number of the document, then (place, operation) pairs
static bool Play( const std::vector<int>& c, std::string& why )
{
    StructuredData sd;
    Node           n;
    if ( !Start( Docs()[ c[ 0 ] ], &sd, n ) )
    {
        why = "the first document cannot be made";
        return false;
    }
    for ( size_t i = 1; i + 1 < c.size(); i += 2 )
    {
        std::vector<std::pair<Node*, Value*>> p;
        if ( !Pairs( n, sd.GetRootJsonValue(), p ) )
        {
            why = why_;
            return false;
        }
        const Op& op     = Ops()[ c[ i + 1 ] ];
        Node      before = *p[ c[ i ] ].first;
        Status    r      = op.real( sd.GetRootJsonValue(), p[ c[ i ] ].second, before );
        Status    m      = op.model( n, *p[ c[ i ] ].first );
        if ( r != m )
        {
            why = std::string( "operation " ) + std::to_string( ( i + 1 ) / 2 ) + " (" + op.name + " at " + fw::Show( ref::Text( before ), 60 ) + ") returns " + StatusName( r ) + ", not " + StatusName( m );
            return false;
        }
    }
    if ( !Whole( sd, n ) )
    {
        why = why_;
        return false;
    }
    return true;
}

static std::vector<int> Decode( const std::string& c )
{
    std::vector<int> v;
    for ( size_t i = 0; i < c.size(); )
    {
        v.push_back( atoi( c.c_str() + i ) );
        i = c.find( ' ', i );
        if ( i == std::string::npos )
            break;
        i++;
    }
    return v;
}

static bool Run( const std::string& c, std::string& why )
{
    why_.clear();
    std::vector<int> v = Decode( c );
    Ops();
    PlainNode();
    MemberNode();
    Docs();
    std::string w;
    w.reserve( 4000 );
    why_.reserve( 4000 );
    long live = alloc::live;
    bool ok;
    {
        ok = Play( v, w );
    }
    if ( !ok )
    {
        why = w;
        return false;
    }
    if ( alloc::live != live )
    {
        why = std::to_string( alloc::live - live ) + " blocks are left behind";
        return false;
    }
    return true;
}

static std::string Show( const std::string& c )
{
    std::vector<int> v = Decode( c );
    std::string      s = Docs()[ v[ 0 ] ];
    for ( size_t i = 1; i + 1 < v.size(); i += 2 )
        s += std::string( "; " ) + Ops()[ v[ i + 1 ] ].name + " at value " + std::to_string( v[ i ] );
    return s;
}

static void Enumerate( fw::Engine& e )
{
    bool th = e.thorough;
    int  K  = int( Ops().size() );
    auto go = [ & ]( auto& self, Node& n, const std::string& c, int left, bool main ) -> void
    {
        if ( e.stopped() )
            return;
        uint64_t h = fw::HashStr( ref::Text( n ) );
        e.state( h );
        e.check( c );
        e.step( 1 );
        if ( !left )
            return;
        std::vector<std::pair<Node*, Value*>> p;
        Pairs( n, nullptr, p );
        for ( size_t i = 0; i < p.size(); i++ )
            for ( int k = 0; k < K; k++ )
                if ( ( !main || Ops()[ k ].main ) && Ops()[ k ].can( *p[ i ].first ) )
                {
                    Node                                  m = n;
                    std::vector<std::pair<Node*, Value*>> q;
                    Pairs( m, nullptr, q );
                    Ops()[ k ].model( m, *q[ i ].first );
                    e.trans( fw::Mix( fw::Mix( h, i ), uint64_t( k ) ) );
                    self( self, m, c + " " + std::to_string( i ) + " " + std::to_string( k ), left - 1, main );
                }
    };
    // A unit is a document and its first operation.
    auto phase = [ & ]( const char* name, int depth, bool main, bool small )
    {
        struct First
        {
            int doc, place, op;
        };
        std::vector<First> f;
        for ( size_t d = 0; d < Docs().size(); d++ )
        {
            Node n;
            Start( Docs()[ d ], nullptr, n );
            std::vector<std::pair<Node*, Value*>> p;
            Pairs( n, nullptr, p );
            if ( small && p.size() > 3 )
                continue;
            for ( size_t i = 0; i < p.size(); i++ )
                for ( int k = 0; k < K; k++ )
                    if ( ( !main || Ops()[ k ].main ) && Ops()[ k ].can( *p[ i ].first ) )
                        f.push_back( { int( d ), int( i ), k } );
        }
        e.phase( name, f.size(),
                 [ & ]( uint64_t u )
                 {
                     Node n;
                     Start( Docs()[ f[ u ].doc ], nullptr, n );
                     std::vector<std::pair<Node*, Value*>> p;
                     Pairs( n, nullptr, p );
                     Ops()[ f[ u ].op ].model( n, *p[ f[ u ].place ].first );
                     go( go, n, std::to_string( f[ u ].doc ) + " " + std::to_string( f[ u ].place ) + " " + std::to_string( f[ u ].op ), depth - 1, main );
                 } );
    };
    e.phase( "documents", Docs().size(), [ & ]( uint64_t u ) { e.check( std::to_string( u ) ); } );
    phase( "two operations", 2, false, false );
    phase( "three of the main operations", 3, true, false );
    phase( "three operations, small documents", 3, false, true );
    if ( th )
    {
        phase( "four of the main operations", 4, true, true );
        phase( "three operations", 3, false, false );
    }
}

int main( int argc, char** argv )
{
    return fw::Main( argc, argv, Enumerate, Run, Show );
}
