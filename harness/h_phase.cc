// Driver for operators that depend on the learning phase: chains of dropout, batch normalization and random shifts applied to a
// place holder, with probes around every stage that record the values passing forward and the gradients passing back.
#include "tr.hpp"
#include "box.hpp"
#include "dec.hpp"
#ifndef VT
#define VT double
#endif
using namespace ceras;
typedef tensor<VT> T;
typedef vbox::boxed<T> B;
struct wire { T fwd, bwd; long f = 0, b = 0; };
static B probe( B const& ex, std::shared_ptr<wire> const& p )
{
    return B{ make_unary_operator(
        [p]<Tensor Tsor>( Tsor const& t ) noexcept { p->fwd = t.deep_copy(); ++p->f; return t; },
        [p]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& g ) noexcept { p->bwd = g.deep_copy(); ++p->b; return g; }, "probe",
        identity_output_shape_calculator{} )( ex ) };
}
static T read( tr::reader& r, std::vector<unsigned long> const& sh ) { T t{ sh }; for ( auto i = 0UL; i != t.size(); ++i ) t[i] = VT( r.d() ); return t; }
static void exec_program( std::vector<tr::tokens> const& prog, std::vector<std::string>& out )
{
    std::cout.setstate( std::ios_base::failbit );
    auto& s = get_default_session<T>();
    place_holder<T> x; B ex; std::vector<std::shared_ptr<wire>> w; std::vector<std::pair<variable<T>, variable<T>>> V; std::vector<long> at;
    std::map<long, decltype( drop_out( VT( 0 ) ) )> drops; std::map<long, decltype( dropout( VT( 0 ) ) )> aliases; std::map<long, decltype( normalization_batch( VT( 0 ) ) )> norms; std::map<long, decltype( sliding_2d( 1UL ) )> slides;
    std::unique_ptr<variable<T>> leaf;
    auto fresh = [&]( auto const& f ) // the variables f creates, in the order of their identities
    {
        std::map<int, long> old; for ( auto const& kv : s.variables_ ) old[kv.first] = 1;
        auto ans = f();
        std::map<int, variable<T>> n; for ( auto const& kv : s.variables_ ) if ( !old.count( kv.first ) ) n.emplace( kv );
        std::vector<variable<T>> v; for ( auto const& kv : n ) v.push_back( kv.second );
        return std::make_pair( ans, v );
    };
    int pos = 0;
    for ( auto const& tk : prog )
    {
        tr::reader r( tk );
        std::string const op = r.word();
        tr::at( pos++, op );
        tr::json j; j.s( "op", op );
        if ( op == "input" ) { auto sh = r.shape(); x = place_holder<T>{ sh }; w.push_back( std::make_shared<wire>() ); ex = probe( B{ identity( x ) }, w.back() ); }
        else if ( op == "stage" )
        {
            std::string k = r.word(); double p = r.d(); long ch = r.i(); long own = r.i(); // the stage whose operator object is applied (once more)
            tr::at( pos - 1, k );
            long vs = 0;
            if ( k == "dropout" ) ex = B{ drops.try_emplace( own, drop_out( VT( p ) ) ).first->second( ex ) };
            else if ( k == "dropout_alias" ) ex = B{ aliases.try_emplace( own, dropout( VT( p ) ) ).first->second( ex ) };
            else if ( k == "Dropout" ) ex = B{ Dropout( VT( p ) )( ex ) };
            else if ( k == "bn" ) ex = B{ norms.try_emplace( own, normalization_batch( VT( p ) ) ).first->second( ex ) };
            else if ( k == "slide" ) ex = B{ slides.try_emplace( own, sliding_2d( (unsigned long)p ) ).first->second( ex ) };
            else if ( k == "batch_normalization" )
            {
                unsigned long c = ch; V.emplace_back( variable<T>{ ones<VT>( {c,} ) }, variable<T>{ zeros<VT>( {c,} ) } ); vs = V.size();
                ex = B{ batch_normalization( VT( p ) )( ex, V.back().first, V.back().second ) };
            }
            else if ( k == "BatchNormalization" )
            {
#ifdef ISFLOAT
                {
                    auto [e, v] = fresh( [&]{ return B{ BatchNormalization( VT( p ) )( ex ) }; } );
                    long g = v.size() == 2 && v[0].data().size() && v[0].data()[0] == VT( 1 ) ? 0 : 1;
                    if ( v.size() == 2 ) { V.emplace_back( v[g], v[1 - g] ); vs = V.size(); }
                    ex = e;
                }
#else
                std::fprintf( stderr, "float only\n" ); _exit( 77 );
#endif
            }
            else { std::fprintf( stderr, "unknown stage %s\n", k.c_str() ); _exit( 77 ); }
            at.push_back( vs );
            w.push_back( std::make_shared<wire>() ); ex = probe( ex, w.back() );
            if ( vs ) { j.raw( "gamma", tens( V[vs-1].first.data() ) ).raw( "beta", tens( V[vs-1].second.data() ) ); j.i( "gt", V[vs-1].first.trainable() ).i( "bt", V[vs-1].second.trainable() ); }
            j.s( "k", k ).raw( "p", dec( double( VT( p ) ) ) ).i( "v", vs ).i( "ch", ch ).i( "own", own );
        }
        else if ( op == "set" ) // set i: new gamma and beta of the i-th normalization
        {
            long i = r.i(); auto& a = V.at( i - 1 ).first.data(); for ( auto& v : a ) v = VT( r.d() ); auto& b = V.at( i - 1 ).second.data(); for ( auto& v : b ) v = VT( r.d() );
            j.i( "v", i ).raw( "gamma", tens( a ) ).raw( "beta", tens( b ) );
        }
        else if ( op == "run" ) // run phase backward {shape} values {gradient}
        {
            long ph = r.i(), back = r.i(); auto sh = r.shape(); T v = read( r, sh ); T g{ {1} }; if ( back ) g = read( r, sh );
            T v0 = v.deep_copy();
            learning_phase = ph;
            for ( auto& p : w ) { p->f = 0; p->b = 0; p->fwd = T{}; p->bwd = T{}; }
            s.bind( x, v );
            T y = s.run( ex );
            T y0 = y.deep_copy();
            if ( back ) { T gc = g.deep_copy(); ex.backward( gc ); }
            std::vector<std::string> fs, bs, fc, bc, gs;
            for ( auto& p : w ) { fs.push_back( tens( p->fwd ) ); fc.push_back( std::to_string( p->f ) ); bc.push_back( std::to_string( p->b ) ); if ( back ) bs.push_back( tens( p->bwd ) ); }
            if ( back ) for ( auto& q : V ) gs.push_back( "[" + tens( q.first.gradient() ) + "," + tens( q.second.gradient() ) + "]" );
            bool same = v.shape() == v0.shape(); for ( auto i = 0UL; same && i != v.size(); ++i ) same = v[i] == v0[i];
            j.i( "ph", ph ).i( "back", back ).raw( "f", tr::join( fs ) ).raw( "b", tr::join( bs ) ).raw( "fc", tr::join( fc ) ).raw( "bc", tr::join( bc ) ).raw( "gs", tr::join( gs ) ).raw( "y", tens( y0 ) ).i( "kept", same ).i( "after", learning_phase );
            if ( back ) j.raw( "g", tens( g ) );
        }
        else { std::fprintf( stderr, "unknown event %s\n", op.c_str() ); _exit( 77 ); }
        out.push_back( j.str() );
    }
}
int main( int argc, char** argv ) { return tr::drive( argc, argv, exec_program ); }
