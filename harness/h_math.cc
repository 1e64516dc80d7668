// Driver for functions over real valued tensors: builds a function's expression once, runs it on several inputs,
// backpropagates arbitrary incoming gradients, and records inputs, values and gradients as decimal numbers.
#include "tr.hpp"
#include "mops.hpp"
#include "dec.hpp"
using namespace ceras;
struct fun { std::string k; pars p; std::vector<place_holder<T>> ph; args out; };
static std::map<long, fun> Fs;
static std::map<long, T> got;
static B probe( long i, B const& x )
{
    return B{ make_unary_operator(
        []<Tensor Tsor>( Tsor const& t ) noexcept { return t.deep_copy(); },
        [i]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& g ) noexcept
        {
            auto it = got.find( i );
            if ( it == got.end() ) got.emplace( i, g.deep_copy() ); else it->second += g;
            return g.deep_copy();
        }, "probe" )( x ) };
}
static int make( std::string const& k, pars const& p, args const& a, args& out )
{
    for ( auto f : { make_math1, make_math2, make_act, make_loss, make_complex } ) if ( int n = f( k, p, a, out ); n ) return n;
    std::fprintf( stderr, "unknown function %s\n", k.c_str() ); _exit( 77 );
}
static void exec_program( std::vector<tr::tokens> const& prog, std::vector<std::string>& out )
{
    std::cout.setstate( std::ios_base::failbit );
    auto& s = get_default_session<T>();
    learning_phase = 1;
    int pos = 0;
    for ( auto const& tk : prog )
    {
        tr::reader r( tk );
        std::string const op = r.word();
        tr::at( pos++, op );
        if ( op == "make" ) // make f name params
        {
            long f = r.i(); fun q; q.k = r.word(); long n = r.i(); while ( n-- > 0 ) q.p.push_back( r.d() );
            tr::at( pos - 1, q.k );
            int const na = make( q.k, q.p, args{}, q.out );
            args a;
            for ( int i = 0; i < na; ++i ) { q.ph.emplace_back(); a.push_back( probe( i, B{ q.ph.back() } ) ); }
            make( q.k, q.p, a, q.out );
            Fs.emplace( f, q );
        }
        else if ( op == "run" ) // run f {shape data}* incoming-gradient-values
        {
            fun& q = Fs.at( r.i() );
            tr::at( pos - 1, q.k );
            std::vector<std::string> as, ys, gs, bs, ps;
            for ( auto& h : q.ph )
            {
                auto sh = r.shape(); T t{ sh };
                for ( auto i = 0UL; i != t.size(); ++i ) t[i] = VT( r.d() );
                as.push_back( tens( t ) );
                s.bind( h, t );
            }
            std::vector<double> gv; long n = r.i(); while ( n-- > 0 ) gv.push_back( r.d() );
            got.clear();
            unsigned long c = 0;
            for ( auto& e : q.out ) ys.push_back( tens( s.run( e ) ) );
            for ( auto& e : q.out )
            {
                T y = s.run( e );
                T g{ y.shape() }; for ( auto i = 0UL; i != g.size(); ++i ) g[i] = VT( gv[c++ % gv.size()] );
                gs.push_back( tens( g ) );
                e.backward( g );
            }
            for ( auto i = 0UL; i != q.ph.size(); ++i ) { auto it = got.find( i ); bs.push_back( it == got.end() ? std::string( "{\"s\":[],\"d\":[]}" ) : tens( it->second ) ); }
            for ( auto p : q.p ) ps.push_back( dec( p ) );
            tr::json j;
            j.s( "op", "run" ).s( "k", q.k ).raw( "p", tr::join( ps ) ).raw( "a", tr::join( as ) ).raw( "y", tr::join( ys ) ).raw( "g", tr::join( gs ) ).raw( "b", tr::join( bs ) );
            out.push_back( j.str() );
        }
        else { std::fprintf( stderr, "unknown event %s\n", op.c_str() ); _exit( 77 ); }
    }
}
int main( int argc, char** argv ) { return tr::drive( argc, argv, exec_program ); }
