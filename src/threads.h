#pragma once
#include <string>
namespace ops
{
    extern std::string dir;
    int                Count();
    const char*        OpName( int k );
    bool               IsSmall( int k );
    void               Run( int k, int variant, std::string& out );
    void               MakeShared();
    void               ReadShared( int k, int variant, std::string& out ); // k: 0-1
    struct Doc;
    Doc*        NewDoc();
    void        FreeDoc( Doc* );
    int         StepCount();
    const char* StepName( int k );
    void        Step( Doc*& d, int k, int which, std::string& out );
} // namespace ops
