// Included once per probe type P, in a namespace of its own: the described types around it.
struct Req
{
    double before = 1;
    P      p;
    double after = 2;
};
#undef REQ_PROTO
#define REQ_PROTO "before", object.before, "p", object.p, "after", object.after
DEFINE_JSON4C4_FUNCTIONS( Req, REQ_PROTO )

struct Opt
{
    P      p;
    double between = 3;
    P      q, r;
};
#undef OPT_PROTO
#define OPT_PROTO "p", object.p, "between", object.between, C4::Json::optional, "q", object.q, C4::Json::optional, "r", object.r
DEFINE_JSON4C4_FUNCTIONS( Opt, OPT_PROTO )

class ReqM
{
public:
    String<> before;
    P        p, q;
    bool     after = true;
#undef REQM_PROTO
#define REQM_PROTO "before", before, "p", p, C4::Json::optional, "q", q, "after", after
    DEFINE_JSON4C4_MEMBER_FUNCTIONS( REQM_PROTO )
};

struct Mix
{
    Array<P>                 list;
    P                        one;
    std::map<std::string, P> map;
    ObjectMap<P>             objects;
    P                        last;
};
#undef MIX_PROTO
#define MIX_PROTO "list", object.list, "one", object.one, C4::Json::optional, "map", object.map, "objects", object.objects, "last", object.last
DEFINE_JSON4C4_FUNCTIONS( Mix, MIX_PROTO )

struct Deep
{
    Req                      r;
    std::vector<Opt>         v;
    Opt                      o;
};
#undef DEEP_PROTO
#define DEEP_PROTO "r", object.r, "v", object.v, C4::Json::optional, "o", object.o
DEFINE_JSON4C4_FUNCTIONS( Deep, DEEP_PROTO )

// Without a name, the members of the probe are those of the type.
struct Un
{
    double a = 5;
    P      p;
    double z = 6;
};
#undef UN_PROTO
#define UN_PROTO "a", object.a, object.p, "z", object.z
DEFINE_JSON4C4_FUNCTIONS( Un, UN_PROTO )
