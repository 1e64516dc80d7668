#include "gops.hpp"
using namespace ceras;
bool build_arith( std::string const& op, args& a, pars const& p, B& out )
{
    typedef value<VT> V;
    VT const c = p.size() ? VT( p[0] ) : VT( 0 );
    if ( op == "neg" ) out = B{ -a[0] };
    else if ( op == "adds" ) out = B{ a[0] + c };
    else if ( op == "sadd" ) out = B{ c + a[0] };
    else if ( op == "subs" ) out = B{ a[0] - c };
    else if ( op == "ssub" ) out = B{ c - a[0] };
    else if ( op == "muls" ) out = B{ a[0] * c };
    else if ( op == "smul" ) out = B{ c * a[0] };
    else if ( op == "vadd" ) out = B{ a[0] + V{ c } };
    else if ( op == "vradd" ) out = B{ V{ c } + a[0] };
    else if ( op == "vsub" ) out = B{ a[0] - V{ c } };
    else if ( op == "vrsub" ) out = B{ V{ c } - a[0] };
    else if ( op == "vmul" ) out = B{ a[0] * V{ c } };
    else if ( op == "vrmul" ) out = B{ V{ c } * a[0] };
    else if ( op == "plus" ) out = B{ a[0] + a[1] };
    else if ( op == "minus" ) out = B{ a[0] - a[1] };
    else if ( op == "emul" ) out = B{ elementwise_product( a[0], a[1] ) };
    else if ( op == "hmul" ) out = B{ hadamard_product( a[0], a[1] ) };
    else if ( op == "mm" ) out = B{ a[0] * a[1] };
    else if ( op == "mul" ) out = B{ multiply( a[0], a[1] ) };
    else return false;
    return true;
}
