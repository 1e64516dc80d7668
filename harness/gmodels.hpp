// models over statically typed expressions, for the graph driver
#ifndef VERIF_GMODELS_HPP
#define VERIF_GMODELS_HPP
#include "gops.hpp"
struct any_model
{
    virtual ~any_model() {}
    virtual B output() = 0;
    virtual B apply( B const& ) = 0;
    virtual T predict( T const& ) = 0;
    virtual ceras::place_holder<T> input() = 0;
    virtual void trainable( bool ) = 0;
};
template< typename Ex >
struct model_of : any_model
{
    ceras::model<Ex, ceras::place_holder<T>> m_;
    model_of( ceras::place_holder<T> const& x, Ex const& ex ) : m_{ x, ex } {}
    B output() override { return B{ m_.output() }; }
    B apply( B const& b ) override { return B{ m_( b ) }; }
    T predict( T const& t ) override { return m_.predict( t ); }
    ceras::place_holder<T> input() override { return m_.input(); }
    void trainable( bool t ) override { m_.trainable( t ); }
};
template< typename Ex > std::unique_ptr<any_model> wrap( ceras::place_holder<T> const& x, Ex const& ex ) { return std::make_unique<model_of<Ex>>( x, ex ); }
typedef std::vector<ceras::variable<T>> vlist;
std::unique_ptr<any_model> build_model( long k, vlist const& v, std::vector<T> const& c );
#endif
