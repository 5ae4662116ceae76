// Bridge between the library's public interface and the reference model.
#pragma once
#include "Json4C4/C4Json.h"
#include "ref.h"
#include <set>

namespace lib
{
    using namespace C4::Json;
    using Terathon::Array;
    using Terathon::String;

    // The library's document, as seen through its public interface. Kind Bad: not exactly one kind applies, or a name,
    // length or iteration is inconsistent.
    inline ref::Node Tree( const Value* v, std::string* problem = nullptr )
    {
        ref::Node n;
        auto      bad = [ & ]( const char* w )
        {
            if ( problem && problem->empty() )
                *problem = w;
            n   = ref::Node();
            n.k = ref::Node::Bad;
            return n;
        };
        if ( !v )
            return bad( "no value" );
        const String<>*      s = v->GetDataAsPointerTo<String<>>();
        const double*        d = v->GetDataAsPointerTo<double>();
        const bool*          b = v->GetDataAsPointerTo<bool>();
        const Null*          u = v->GetDataAsPointerTo<Null>();
        const Array<Value*>* a = v->GetDataAsPointerTo<Array<Value*>>();
        const ObjectValue*   o = v->AsJsonObjectValue();
        if ( !!s + !!d + !!b + !!u + !!a + !!o != 1 )
            return bad( "not exactly one kind applies to a value" );
        if ( s )
        {
            const char* c = static_cast<const char*>( *s );
            n             = ref::Node::MkStr( c );
            if ( s->GetStringLength() != int( n.s.size() ) )
                return bad( "string length does not match its text" );
        }
        else if ( d )
            n = ref::Node::MkNum( *d );
        else if ( b )
            n = ref::Node::MkBool( *b );
        else if ( a )
        {
            n.k = ref::Node::Arr;
            for ( int i = 0; i < a->GetArrayElementCount(); i++ )
            {
                n.a.push_back( Tree( ( *a )[ i ], problem ) );
                if ( n.a.back().k == ref::Node::Bad )
                    return bad( "bad element" );
            }
        }
        else if ( o )
        {
            n.k = ref::Node::Obj;
            for ( const Value* m : *o )
            {
                std::string name = static_cast<const char*>( m->name );
                if ( m->name.GetStringLength() != int( name.size() ) )
                    return bad( "name length does not match its text" );
                if ( !n.o.empty() && !( n.o.back().first < name ) )
                    return bad( "members are not visited in ascending order" );
                n.o.emplace_back( name, Tree( m, problem ) );
                if ( n.o.back().second.k == ref::Node::Bad )
                    return bad( "bad member" );
            }
        }
        return n;
    }

    inline void Fill( Array<char>& a, const std::string& s, bool terminate = true )
    {
        a.SetArrayElementCount( int( s.size() ) + terminate );
        if ( !s.empty() )
            memcpy( a.begin(), s.data(), s.size() );
        if ( terminate )
            a[ int( s.size() ) ] = 0;
    }

    inline ParseResult Parse( StructuredData& sd, const std::string& text )
    {
        Array<char> a;
        Fill( a, text );
        return sd.Parse( a );
    }

    inline std::string StatusName( Status s )
    {
        String<256> t = StatusToString( s );
        return std::string( static_cast<const char*>( t ) );
    }
} // namespace lib
