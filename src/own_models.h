// Included once per probe namespace NS: the models of its described types.
template <>
struct Sh<NS::Req>
{
    using P = NS::P;
    static void fill( NS::Req& x, Ctx& c ) { Sh<P>::fill( x.p, c ); }
    static Node doc( Ctx& c )
    {
        Node o = Node::MkObj();
        if ( c.more )
            o.set( "0", Node::MkStr( "x" ) );
        o.set( "before", Node::MkNum( 1 ) );
        o.set( "p", Sh<P>::doc( c ) );
        o.set( "after", Node::MkNum( 2 ) );
        if ( c.more )
            o.set( "q", Sh<P>::doc( *std::unique_ptr<Ctx>( new Ctx( c ) ) ) );
        return o;
    }
    static void ids( const NS::Req& x, std::vector<int>& v ) { Sh<P>::ids( x.p, v ); }
};
template <>
struct Sh<NS::Opt>
{
    using P = NS::P;
    static void fill( NS::Opt& x, Ctx& c )
    {
        Sh<P>::fill( x.p, c );
        Sh<P>::fill( x.q, c );
        Sh<P>::fill( x.r, c );
    }
    static Node doc( Ctx& c )
    {
        Node o = Node::MkObj();
        o.set( "p", Sh<P>::doc( c ) );
        o.set( "between", Node::MkNum( 3 ) );
        if ( c.opt )
            o.set( "q", Sh<P>::doc( c ) );
        if ( c.opt )
            o.set( "r", Sh<P>::doc( c ) );
        return o;
    }
    static void ids( const NS::Opt& x, std::vector<int>& v )
    {
        Sh<P>::ids( x.p, v );
        Sh<P>::ids( x.q, v );
        Sh<P>::ids( x.r, v );
    }
};
template <>
struct Sh<NS::ReqM>
{
    using P = NS::P;
    static void fill( NS::ReqM& x, Ctx& c )
    {
        x.before = "b";
        Sh<P>::fill( x.p, c );
        Sh<P>::fill( x.q, c );
    }
    static Node doc( Ctx& c )
    {
        Node o = Node::MkObj();
        o.set( "before", Node::MkStr( "b" ) );
        o.set( "p", Sh<P>::doc( c ) );
        if ( c.opt )
            o.set( "q", Sh<P>::doc( c ) );
        o.set( "after", Node::MkBool( true ) );
        if ( c.more )
            o.set( "P", Node::MkArr() );
        return o;
    }
    static void ids( const NS::ReqM& x, std::vector<int>& v )
    {
        Sh<P>::ids( x.p, v );
        Sh<P>::ids( x.q, v );
    }
};
template <>
struct Sh<NS::Mix>
{
    using P = NS::P;
    static void fill( NS::Mix& x, Ctx& c )
    {
        Sh<Array<P>>::fill( x.list, c );
        Sh<P>::fill( x.one, c );
        Sh<std::map<std::string, P>>::fill( x.map, c );
        Sh<ObjectMap<P>>::fill( x.objects, c );
        Sh<P>::fill( x.last, c );
    }
    static Node doc( Ctx& c )
    {
        Node o = Node::MkObj();
        o.set( "list", Sh<Array<P>>::doc( c ) );
        o.set( "one", Sh<P>::doc( c ) );
        if ( c.opt )
            o.set( "map", Sh<std::map<std::string, P>>::doc( c ) );
        o.set( "objects", Sh<ObjectMap<P>>::doc( c ) );
        o.set( "last", Sh<P>::doc( c ) );
        return o;
    }
    static void ids( const NS::Mix& x, std::vector<int>& v )
    {
        Sh<Array<P>>::ids( x.list, v );
        Sh<P>::ids( x.one, v );
        Sh<std::map<std::string, P>>::ids( x.map, v );
        Sh<ObjectMap<P>>::ids( x.objects, v );
        Sh<P>::ids( x.last, v );
    }
};
template <>
struct Sh<NS::Deep>
{
    static void fill( NS::Deep& x, Ctx& c )
    {
        Sh<NS::Req>::fill( x.r, c );
        Sh<std::vector<NS::Opt>>::fill( x.v, c );
        Sh<NS::Opt>::fill( x.o, c );
    }
    static Node doc( Ctx& c )
    {
        Node o = Node::MkObj();
        o.set( "r", Sh<NS::Req>::doc( c ) );
        o.set( "v", Sh<std::vector<NS::Opt>>::doc( c ) );
        if ( c.opt )
            o.set( "o", Sh<NS::Opt>::doc( c ) );
        return o;
    }
    static void ids( const NS::Deep& x, std::vector<int>& v )
    {
        Sh<NS::Req>::ids( x.r, v );
        Sh<std::vector<NS::Opt>>::ids( x.v, v );
        Sh<NS::Opt>::ids( x.o, v );
    }
};
template <>
struct Sh<NS::Un>
{
    using P = NS::P;
    static void fill( NS::Un& x, Ctx& c ) { Sh<P>::fill( x.p, c ); }
    static Node doc( Ctx& c )
    {
        Node o = Node::MkObj();
        o.set( "a", Node::MkNum( 5 ) );
        o.set( "id", Node::MkNum( c.next++ ) );
        o.set( "z", Node::MkNum( 6 ) );
        return o;
    }
    static void ids( const NS::Un& x, std::vector<int>& v ) { Sh<P>::ids( x.p, v ); }
};
