// Driver for compiled models: linear models with integer data, a loss that is the sum of output * ground truth, and an optimizer
// that records when it is run.  Probes record every batch that is evaluated and the learning phase in force.
#include "tr.hpp"
#include "box.hpp"
#include "screen.hpp"
#include "dec.hpp"
#ifndef VT
#define VT double
#endif
using namespace ceras;
typedef tensor<VT> T;
typedef vbox::boxed<T> B;
static std::vector<std::string> xs, ys, gs, us; // [phase,[values]] of every batch, and [batches before,phase] of every update
static std::string ints( T const& t ) { std::string r = "["; for ( auto i = 0UL; i != t.size(); ++i ) { if ( i ) r += ','; r += std::to_string( tr::as_int( t.data()[i] ) ); } return r + "]"; }
static B probe( B const& ex, std::vector<std::string>& to )
{
    auto* p = &to;
    return B{ make_unary_operator(
        [p]<Tensor Tsor>( Tsor const& t ) noexcept { p->push_back( "[" + std::to_string( learning_phase ) + "," + ints( t ) + "]" ); return t; },
        []<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& g ) noexcept { return g; }, "probe" )( ex ) };
}
struct recorder
{
    sgd<B, VT> o_;
    recorder( sgd<B, VT> const& o ) : o_( o ) {}
    void forward() { us.push_back( "[" + std::to_string( xs.size() ) + "," + std::to_string( learning_phase ) + "]" ); o_.forward(); }
};
struct loss_of { std::function<B( B const&, place_holder<T> const& )> f_; auto operator()( B const& y ) const { auto f = f_; return [f, y]( place_holder<T> const& g ) { return f( y, g ); }; } };
struct make_opt { VT lr, mom; unsigned long bs; bool nes; auto operator()( B& loss ) const { return recorder{ sgd<B, VT>{ loss, bs, lr, mom, VT( 0 ), nes } }; } };
typedef model<B, place_holder<T>> M;
typedef decltype( std::declval<M&>().compile( std::declval<loss_of const&>(), std::declval<make_opt const&>() ) ) CM;
static T read( tr::reader& r, std::vector<unsigned long> const& sh ) { T t{ sh }; for ( auto i = 0UL; i != t.size(); ++i ) t[i] = VT( r.d() ); return t; }
static std::string errors( std::vector<VT> const& v ) { std::vector<std::string> s; for ( auto x : v ) s.push_back( tr::finite_bits( x ) ? dec( double( x ) ) : "[" + std::to_string( tr::nonfinite( x ) ) + ",0]" ); return tr::join( s ); }
static void exec_program( std::vector<tr::tokens> const& prog, std::vector<std::string>& out )
{
    std::cout.setstate( std::ios_base::failbit ); std::cerr.setstate( std::ios_base::failbit ); // progress bars
    auto& s = get_default_session<T>();
    std::map<long, variable<T>> V; std::map<long, std::unique_ptr<M>> models; std::map<long, std::unique_ptr<CM>> cms; std::map<long, long> of;
    int pos = 0;
    for ( auto const& tk : prog )
    {
        tr::reader r( tk );
        std::string const op = r.word();
        tr::at( pos++, op );
        tr::json j; j.s( "op", op );
        xs.clear(); ys.clear(); gs.clear(); us.clear();
        if ( op == "var" ) { long i = r.i(), trn = r.i(); auto sh = r.shape(); T t = read( r, sh ); V.emplace( i, variable<T>{ t, VT( 0 ), VT( 0 ), bool( trn ) } ); j.i( "i", i ).i( "trn", trn ).raw( "v", ints( t ) ); }
        else if ( op == "model" ) // model i {sample shape} weight bias|0 {output shape}
        {
            long i = r.i(); auto in = r.shape(); long w = r.i(), b = r.i(); auto o = r.shape();
            place_holder<T> x; B e = probe( B{ identity( x ) }, xs );
            if ( in.size() > 1 ) { unsigned long n = 1; for ( auto d : in ) n *= d; e = B{ reshape( { n } )( e ) }; }
            e = B{ e * V.at( w ) };
            if ( b ) e = B{ e + V.at( b ) };
            if ( o.size() > 1 ) e = B{ reshape( o )( e ) };
            models[i] = std::make_unique<M>( x, probe( e, ys ) );
            unsigned long k = 1, m = 1; for ( auto d : in ) k *= d; for ( auto d : o ) m *= d;
            j.i( "i", i ).i( "k", k ).i( "m", m ).i( "w", w ).i( "b", b );
        }
        else if ( op == "compile" ) // compile c model rate momentum batch nesterov
        {
            long c = r.i(), i = r.i(); make_opt o; o.lr = r.d(); o.mom = r.d(); o.bs = r.i(); o.nes = r.i();
            loss_of l; l.f_ = []( B const& y, place_holder<T> const& g ) { return B{ reduce_sum( hadamard_product( y, probe( B{ identity( g ) }, gs ) ) ) }; };
            cms[c].reset( new CM( models.at( i )->compile( l, o ) ) ); of[c] = i;
            j.i( "i", c ).i( "model", i ).i( "lr", long( o.lr ) ).i( "mom", long( o.mom ) ).i( "bs", o.bs ).i( "nes", o.nes );
        }
        else if ( op == "phase" ) { learning_phase = r.i(); j.i( "v", learning_phase ); }
        else
        {
            long c = r.i(); auto& m = *cms.at( c ); long bs = 0, ep = 0, q = 0, verbose = 0;
            j.i( "i", c );
            { static long const widths[] = { 80, -1, 200, 40, 12, 1, 0 }; screen = widths[pos % 7]; } // the progress bar must not matter
            if ( op == "fit" ) { bs = r.i(); ep = r.i(); q = r.i(); verbose = r.i(); }
            if ( op == "evaluate" ) bs = r.i();
            auto xsh = r.shape(); T x = read( r, xsh ); T g{ {1} }; g[0] = 0; if ( op != "predict" && op != "predict_model" && op != "forward" ) { auto gsh = r.shape(); g = read( r, gsh ); }
            T x0 = x.deep_copy(), g0 = g.deep_copy();
            std::vector<VT> e1, e2;
            if ( op == "fit" ) { auto [a, b] = m.fit( x, g, bs, ep, int( verbose ), double( q ) / 4.0 ); e1 = a; e2 = b; j.i( "bs", bs ).i( "ep", ep ).i( "q", q ); }
            else if ( op == "evaluate" ) { e1.push_back( m.evaluate( x, g, bs ) ); j.i( "bs", bs ); }
            else if ( op == "train" ) e1.push_back( m.train_on_batch( x, g ) );
            else if ( op == "step" ) { s.bind( m.input_place_holder_, x ); s.bind( m.ground_truth_place_holder_, g ); e1.push_back( s.run( m.loss_ ).as_scalar() ); s.run( m.compiled_optimizer_ ); }
            else if ( op == "predict" || op == "predict_model" || op == "forward" )
            {
                T y;
                if ( op == "predict" ) y = m.predict( x ); else if ( op == "predict_model" ) y = models.at( of.at( c ) )->predict( x );
                else { s.bind( m.input_place_holder_, x ); y = s.run( m.model_.expression_ ); }
                auto sh = y.shape(); j.raw( "y", ints( y ) ).i( "yn", sh.empty() ? 0 : sh[0] );
            }
            else { std::fprintf( stderr, "unknown event %s\n", op.c_str() ); _exit( 77 ); }
            j.i( "n", xsh[0] ).raw( "x", ints( x0 ) ).raw( "g", ints( g0 ) ).i( "kept", ints( x ) == ints( x0 ) && ints( g ) == ints( g0 ) && x.shape() == x0.shape() && g.shape() == g0.shape() );
            j.raw( "e1", errors( e1 ) ).raw( "e2", errors( e2 ) ).raw( "xs", tr::join( xs ) ).raw( "ys", tr::join( ys ) ).raw( "gs", tr::join( gs ) ).raw( "us", tr::join( us ) );
            std::vector<std::string> vs; for ( auto& kv : V ) { tr::json q; vs.push_back( q.i( "i", kv.first ).raw( "v", ints( kv.second.data() ) ).str() ); }
            j.raw( "vs", tr::join( vs ) ).i( "ph", learning_phase );
        }
        out.push_back( j.str() );
    }
}
int main( int argc, char** argv ) { return tr::drive( argc, argv, exec_program ); }
