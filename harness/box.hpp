// A type-erased ceras expression with *value* semantics: copying a box copies the
// expression it holds, exactly as copying the statically typed expression does.
// It lets the drivers build arbitrary expression graphs at run time.
#ifndef VERIF_BOX_HPP
#define VERIF_BOX_HPP
#include <ceras.hpp>
#include <memory>
namespace vbox
{
    template< typename Tsor >
    struct node
    {
        virtual ~node() {}
        virtual Tsor forward() = 0;
        virtual void backward( Tsor const& ) = 0;
        virtual std::vector<unsigned long> shape() const = 0;
        virtual int id() const = 0;
        virtual std::unique_ptr<node> clone() const = 0;
    };
    template< typename Tsor, typename Ex >
    struct holder : node<Tsor>
    {
        Ex ex_;
        holder( Ex const& ex ) : ex_{ ex } {}
        Tsor forward() override { return ex_.forward(); }
        void backward( Tsor const& g ) override { ex_.backward( g ); }
        std::vector<unsigned long> shape() const override { return ex_.shape(); }
        int id() const override { return ex_.id(); }
        std::unique_ptr<node<Tsor>> clone() const override { return std::make_unique<holder>( *this ); }
    };
    template< typename Tsor >
    struct boxed
    {
        typedef Tsor tensor_type;
        std::unique_ptr<node<Tsor>> p_;
        std::string name_ = "box";
        boxed() {}
        template< typename Ex > requires( !std::same_as<Ex, boxed> )
        explicit boxed( Ex const& ex ) : p_{ std::make_unique<holder<Tsor, Ex>>( ex ) } {}
        boxed( boxed const& o ) : p_{ o.p_ ? o.p_->clone() : nullptr } {}
        boxed( boxed&& ) = default;
        boxed& operator = ( boxed const& o ) { p_ = o.p_ ? o.p_->clone() : nullptr; return *this; }
        boxed& operator = ( boxed&& ) = default;
        Tsor forward() { return p_->forward(); }
        void backward( Tsor const& g ) { p_->backward( g ); }
        std::vector<unsigned long> shape() const { return p_->shape(); }
        int id() const { return p_->id(); }
        std::string name() const { return name_; }
    };
}
namespace ceras
{
    template< typename Tsor > struct is_unary_operator< vbox::boxed<Tsor> > : std::true_type {};
}
#endif
