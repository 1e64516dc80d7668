// Objects with an identity, behind one interface; built in two translation units.
#ifndef VERIF_IDS_HPP
#define VERIF_IDS_HPP
#include <ceras.hpp>
#include <memory>
struct obj { virtual ~obj() {} virtual long id() const = 0; virtual long kind() const = 0; virtual std::unique_ptr<obj> clone() const = 0; virtual void assign( obj const& ) = 0; };
template< typename X > struct obj_of : obj
{
    X x_; long k_;
    obj_of( X const& x, long k ) : x_( x ), k_( k ) {}
    long id() const override { return x_.id(); }
    long kind() const override { return k_; }
    std::unique_ptr<obj> clone() const override { return std::make_unique<obj_of>( *this ); }
    void assign( obj const& o ) override { if constexpr ( std::is_copy_assignable_v<X> ) x_ = static_cast<obj_of const&>( o ).x_; }
};
template< typename X > static std::unique_ptr<obj> hold( X const& x, long k ) { return std::make_unique<obj_of<X>>( x, k ); }
// kinds as recorded: 0 tensor, 1 variable, 2 place holder, 3 constant, 4 value, 5 operator
static std::unique_ptr<obj> build_object( long what )
{
    using namespace ceras;
    typedef tensor<double> tsr;
    static place_holder<tsr> x, y;
    switch ( what )
    {
        case 0: return hold( tsr{}, 0 );
        case 1: return hold( tsr{ { 2UL, 3UL } }, 0 );
        case 2: return hold( ones<double>( { 2UL } ), 0 );
        case 3: return hold( variable<tsr>{ tsr{ { 2UL } } }, 1 );
        case 4: return hold( place_holder<tsr>{}, 2 );
        case 5: return hold( place_holder<tsr>{ std::vector<unsigned long>{ 3UL } }, 2 );
        case 6: return hold( constant<tsr>{ tsr{ { 2UL } } }, 3 );
        case 7: return hold( value<double>{ 1.0 }, 4 );
        case 8: return hold( -x, 5 );
        case 9: return hold( square( x ), 5 );
        case 10: return hold( x + y, 5 );
        case 11: return hold( x * y, 5 );
        case 12: return hold( reduce_sum( x - y ), 5 );
        default: { tsr a{ { 2UL } }; return hold( a.deep_copy(), 0 ); }
    }
}
std::unique_ptr<obj> make_object( long what );
std::unique_ptr<obj> make_object_elsewhere( long what );
#endif
