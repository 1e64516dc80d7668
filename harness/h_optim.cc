// Driver for optimizers: a loss that is linear in the variables, so that the gradients are exactly the tensors bound to its
// place holders; every step records the variables before and after, and the change of every element.
#include "tr.hpp"
#include "box.hpp"
#include "dec.hpp"
#ifndef VT
#define VT double
#endif
using namespace ceras;
typedef tensor<VT> T;
typedef vbox::boxed<T> B;
struct stepper { virtual ~stepper() {} virtual void step() = 0; virtual void change_loss() {} };
template< typename O > struct opt_of : stepper { O o_; opt_of( O const& o ) : o_( o ) {} void step() override { get_default_session<T>().run( o_ ); } };
template< typename F > static std::unique_ptr<stepper> made( F const& f, B& loss ) { auto o = f( loss ); return std::make_unique<opt_of<decltype( o )>>( o ); }
template< typename O > static std::unique_ptr<stepper> own( O const& o ) { return std::make_unique<opt_of<O>>( o ); }
static std::unique_ptr<stepper> optimizer( std::string const& k, bool factory, unsigned long bs, std::vector<VT> const& p, B& loss )
{
    // trailing arguments that are off by default are left out when they are off
    if ( k == "sgd" && !p[2] && !p[3] ) { if ( p[1] ) return own( sgd<B, VT>{ loss, bs, p[0], p[1] } ); return factory ? made( SGD( bs, p[0] ), loss ) : own( sgd<B, VT>{ loss, bs, p[0] } ); }
    if ( k == "adagrad" && !p[1] ) return factory ? made( Adagrad( bs, p[0] ), loss ) : own( adagrad<B, VT>{ loss, bs, p[0] } );
    if ( k == "rmsprop" && !p[2] && !factory ) return own( rmsprop<B, VT>{ loss, bs, p[0], p[1] } );
    if ( k == "gd" && !p[1] ) return own( gradient_descent<B, VT>{ loss, bs, p[0] } );
    if ( k == "sgd" ) return factory ? made( SGD( bs, p[0], p[1], p[2], p[3] != 0 ), loss ) : own( sgd<B, VT>{ loss, bs, p[0], p[1], p[2], p[3] != 0 } );
    if ( k == "adagrad" ) return factory ? made( Adagrad( bs, p[0], p[1] ), loss ) : own( adagrad<B, VT>{ loss, bs, p[0], p[1] } );
    if ( k == "rmsprop" ) return factory ? made( RMSprop( bs, p[0], p[1], p[2] ), loss ) : own( rmsprop<B, VT>{ loss, bs, p[0], p[1], p[2] } );
    if ( k == "adadelta" ) return factory ? made( Adadelta( bs, p[0] ), loss ) : own( adadelta<B, VT>{ loss, bs, p[0] } );
    if ( k == "adam" ) return factory ? made( Adam( bs, p[0], p[1], p[2] ), loss ) : own( adam<B, VT>{ loss, bs, p[0], p[1], p[2] } );
    if ( k == "gd" ) return own( gradient_descent<B, VT>{ loss, bs, p[0], p[1] } );
    std::fprintf( stderr, "unknown optimizer %s\n", k.c_str() ); _exit( 77 );
}
static void exec_program( std::vector<tr::tokens> const& prog, std::vector<std::string>& out )
{
    std::cout.setstate( std::ios_base::failbit );
    auto& s = get_default_session<T>();
    learning_phase = 1;
    std::map<long, variable<T>> V;
    std::map<long, B> loss; std::map<long, std::vector<std::pair<long, place_holder<T>>>> terms; std::map<long, std::unique_ptr<stepper>> O;
    int pos = 0;
    auto read = []( tr::reader& r, std::vector<unsigned long> const& sh ) { T t{ sh }; for ( auto i = 0UL; i != t.size(); ++i ) t[i] = VT( r.d() ); return t; };
    for ( auto const& tk : prog )
    {
        tr::reader r( tk );
        std::string const op = r.word();
        tr::at( pos++, op );
        tr::json j; j.s( "op", op );
        if ( op == "var" ) { long i = r.i(), trn = r.i(); auto sh = r.shape(); T t = read( r, sh ); V.emplace( i, variable<T>{ t, VT( 0 ), VT( 0 ), bool( trn ) } ); j.i( "i", i ).i( "trn", trn ).raw( "v", tens( V.at( i ).data() ) ); }
        else if ( op == "loss" ) // loss i variables: the sum over its terms of the sum of variable * place holder
        {
            long i = r.i(); auto vs = r.ints(); B e; bool first = true;
            for ( long v : vs )
            {
                place_holder<T> p; terms[i].emplace_back( v, p );
                B t{ reduce_sum( hadamard_product( V.at( v ), p ) ) };
                if ( first ) e = t; else e = B{ e + t };
                first = false;
            }
            loss.emplace( i, e ); j.i( "i", i ).l( "t", vs );
        }
        else if ( op == "opt" )
        {
            long i = r.i(), l = r.i(); std::string k = r.word(); bool f = r.i(); long bs = r.i(), n = r.i(); std::vector<VT> p; while ( n-- > 0 ) p.push_back( VT( r.d() ) );
            tr::at( pos - 1, k );
            O[i] = optimizer( k, f, bs, p, loss.at( l ) );
            std::vector<std::string> ps; for ( auto x : p ) ps.push_back( dec( double( x ) ) );
            j.i( "i", i ).i( "l", l ).s( "k", k ).i( "bs", bs ).raw( "p", tr::join( ps ) );
        }
        else if ( op == "step" ) // step optimizer loss {values of the place holders}
        {
            long i = r.i(), l = r.i();
            std::vector<std::string> cs, vs;
            for ( auto& t : terms.at( l ) ) { T c = read( r, V.at( t.first ).shape() ); s.bind( t.second, c ); cs.push_back( tens( c ) ); }
            long extra = r.i();
            std::map<long, T> before; for ( auto& kv : V ) before.emplace( kv.first, kv.second.data().deep_copy() );
            while ( extra-- > 0 ) s.run( loss.at( l ) );
            s.run( loss.at( l ) );
            O.at( i )->step();
            for ( auto& kv : V )
            {
                T const a = kv.second.data(); T const& b = before.at( kv.first );
                std::vector<std::string> u; for ( auto k = 0UL; k != b.size(); ++k ) { double d = double( a.data()[k] ) - double( b.data()[k] ); u.push_back( tr::finite_bits( a.data()[k] ) ? dec( d ) : "[" + std::to_string( tr::nonfinite( a.data()[k] ) ) + ",0]" ); }
                tr::json q; vs.push_back( q.i( "i", kv.first ).raw( "b", tens( b ) ).raw( "u", tr::join( u ) ).raw( "a", tens( a ) ).str() );
            }
            j.i( "i", i ).raw( "c", tr::join( cs ) ).raw( "vs", tr::join( vs ) );
        }
        else { std::fprintf( stderr, "unknown event %s\n", op.c_str() ); _exit( 77 ); }
        out.push_back( j.str() );
    }
}
int main( int argc, char** argv ) { return tr::drive( argc, argv, exec_program ); }
