From 8c3e5911df252750bb4b2dc0bab7e4433abf1ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 01/57] fix: share the operator input/output data among copies,
 so shared subexpressions backpropagate

---
 include/operation.hpp | 77 +++++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 36 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 4734758..c31ca59 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -55,6 +55,8 @@ namespace ceras
         enable_id<unary_operator<Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>, "Unary_Operator">,
         enable_unary_serializer<unary_operator<Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer> >
     {
+        typedef decltype( std::declval<Forward_Action>()( std::declval<Operator>().forward() ) ) tensor_type;
+
         struct unary_operator_state
         {
             Operator op_;
@@ -62,34 +64,34 @@ namespace ceras
             Backward_Action backward_action_;
             Output_Shape_Calculator output_shape_calculator_;
             Serializer serializer_;
+            tensor_type input_data_; // shared by all the copies of this operator, as only one of them computes the forward pass
+            tensor_type output_data_;
         };
         std::shared_ptr<unary_operator_state> state_;
 
-        typedef decltype( std::declval<Forward_Action>()( std::declval<Operator>().forward() ) ) tensor_type;
-
-        tensor_type input_data_;
-        tensor_type output_data_;
-
         unary_operator( Operator const& op, Forward_Action const& forward_action, Backward_Action const& backward_action, Output_Shape_Calculator const& output_shape_calculator, Serializer const& serializer ) noexcept : state_{ std::make_shared<unary_operator_state>( op, forward_action, backward_action, output_shape_calculator, serializer ) } {}
 
         auto forward()
         {
             auto& sess = get_default_session<tensor_type>();
-            output_data_= sess.query_forward_cache( (*this).id() );
+            auto& input_data = state_->input_data_;
+            auto& output_data = state_->output_data_;
+
+            output_data = sess.query_forward_cache( (*this).id() );
 
-            if ( output_data_.empty() )
+            if ( output_data.empty() )
             {
-                input_data_ = op().forward();
-                output_data_ = forward_action()( input_data_ );
-                sess.update_forward_cache( (*this).id(), output_data_ );
+                input_data = op().forward();
+                output_data = forward_action()( input_data );
+                sess.update_forward_cache( (*this).id(), output_data );
             }
 
-            return output_data_;
+            return output_data;
         }
 
         void backward( tensor_type const& grad )
         {
-            auto const& current_gradient = backward_action()( input_data_, output_data_, grad );
+            auto const& current_gradient = backward_action()( state_->input_data_, state_->output_data_, grad );
             op().backward( current_gradient );
         }
 
@@ -106,8 +108,8 @@ namespace ceras
         Backward_Action const& backward_action() const { return state_->backward_action_; }
         Output_Shape_Calculator const& output_shape_calculator() const { return state_->output_shape_calculator_; }
         Serializer const& serializer() const { return state_->serializer_; }
-        tensor_type output_data() { return output_data_; }
-        tensor_type input_data() { return input_data_; }
+        tensor_type output_data() { return state_->output_data_; }
+        tensor_type input_data() { return state_->input_data_; }
 
         Operator& op() { return state_->op_; }
         Forward_Action& forward_action() { return state_->forward_action_; }
@@ -145,6 +147,8 @@ namespace ceras
         enable_id<binary_operator<Lhs_Operator, Rhs_Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>, "Binary Operator">,
         enable_binary_serializer<binary_operator<Lhs_Operator, Rhs_Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>>
     {
+        typedef typename tensor_deduction<Lhs_Operator, Rhs_Operator>::tensor_type tensor_type; // defined in value.hpp
+
         struct binary_operator_state
         {
             Lhs_Operator lhs_op_;
@@ -153,47 +157,48 @@ namespace ceras
             Backward_Action backward_action_;
             Output_Shape_Calculator output_shape_calculator_;
             Serializer serializer_;
+            tensor_type lhs_input_data_; // shared by all the copies of this operator, as only one of them computes the forward pass
+            tensor_type rhs_input_data_;
+            tensor_type output_data_;
         };
         std::shared_ptr<binary_operator_state> state_;
 
-        typedef typename tensor_deduction<Lhs_Operator, Rhs_Operator>::tensor_type tensor_type; // defined in value.hpp
-
-        tensor_type lhs_input_data_;
-        tensor_type rhs_input_data_;
-        tensor_type output_data_;
-
         binary_operator( Lhs_Operator const& lhs_op, Rhs_Operator const& rhs_op, Forward_Action const& forward_action, Backward_Action const& backward_action, Output_Shape_Calculator const& output_shape_calculator, Serializer const& serializer) noexcept :
             state_{ std::make_shared<binary_operator_state>(lhs_op, rhs_op, forward_action, backward_action, output_shape_calculator, serializer) } {}
 
         auto forward()
         {
             auto& sess = get_default_session<tensor_type>();
-            output_data_= sess.query_forward_cache( (*this).id() );
+            auto& lhs_input_data = state_->lhs_input_data_;
+            auto& rhs_input_data = state_->rhs_input_data_;
+            auto& output_data = state_->output_data_;
+
+            output_data = sess.query_forward_cache( (*this).id() );
 
-            if ( !output_data_.empty() )
-                return output_data_;
+            if ( !output_data.empty() )
+                return output_data;
 
             static_assert( !(is_value_v<Lhs_Operator> && is_value_v<Rhs_Operator>), "Not valid for two values" );
 
             if constexpr ( is_value_v<Lhs_Operator> )
             {
-                rhs_input_data_ = rhs_op().forward();
-                lhs_input_data_ = lhs_op().forward( rhs_input_data_ );
+                rhs_input_data = rhs_op().forward();
+                lhs_input_data = lhs_op().forward( rhs_input_data );
             }
             else if constexpr ( is_value_v<Rhs_Operator> )
             {
-                lhs_input_data_ = lhs_op().forward();
-                rhs_input_data_ = rhs_op().forward( lhs_input_data_ );
+                lhs_input_data = lhs_op().forward();
+                rhs_input_data = rhs_op().forward( lhs_input_data );
             }
             else
             {
-                lhs_input_data_ = lhs_op().forward();
-                rhs_input_data_ = rhs_op().forward();
+                lhs_input_data = lhs_op().forward();
+                rhs_input_data = rhs_op().forward();
             }
 
-            output_data_ = forward_action()( lhs_input_data_, rhs_input_data_ );
-            sess.update_forward_cache( (*this).id(), output_data_ );
-            return output_data_;
+            output_data = forward_action()( lhs_input_data, rhs_input_data );
+            sess.update_forward_cache( (*this).id(), output_data );
+            return output_data;
         }
 
         ///
@@ -201,7 +206,7 @@ namespace ceras
         ///
         void backward( tensor_type const& grad )
         {
-            auto const& [current_gradient_lhs, current_gradient_rhs] = backward_action()( lhs_input_data_, rhs_input_data_, output_data_, grad );
+            auto const& [current_gradient_lhs, current_gradient_rhs] = backward_action()( state_->lhs_input_data_, state_->rhs_input_data_, state_->output_data_, grad );
             lhs_op().backward( current_gradient_lhs );
             rhs_op().backward( current_gradient_rhs );
         }
@@ -234,9 +239,9 @@ namespace ceras
         Output_Shape_Calculator& output_shape_calculator() { return state_->output_shape_calculator_; }
         Serializer& serializer() { return state_->serializer_; }
 
-        tensor_type output_data() { return output_data_; }
-        tensor_type lhs_input_data() { return lhs_input_data_; }
-        tensor_type rhs_input_data() { return rhs_input_data_; }
+        tensor_type output_data() { return state_->output_data_; }
+        tensor_type lhs_input_data() { return state_->lhs_input_data_; }
+        tensor_type rhs_input_data() { return state_->rhs_input_data_; }
     }; // struct binary_operator
 
     template< typename Forward_Action, typename Backward_Action, typename Output_Shape_Calculator= identity_output_shape_calculator, typename Serializer = default_binary_expression_serializer >
-- 
2.43.0


From f6875cc01f9c161adc20403a0fa6f43294dabc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 02/57] fix: tensor addition and subtraction modified their
 left operand in place

---
 include/tensor.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 8f8e552..61f7f59 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -578,7 +578,7 @@ namespace ceras
     Tsor add( Tsor const& lhs, Tsor const& rhs ) noexcept
     {
         auto const& broadcasted_shape = broadcast_shape( lhs.shape(), rhs.shape() );
-        auto llhs = broadcast_tensor( lhs, broadcasted_shape );
+        auto llhs = broadcast_tensor( lhs, broadcasted_shape ).deep_copy(); // 'broadcast_tensor' may return a shallow copy of 'lhs'
         auto const& rrhs = broadcast_tensor( rhs, broadcasted_shape );
 
         for_each( llhs.begin(), llhs.end(), rrhs.begin(), []( auto& x, auto const& y ) noexcept { x += y; } );
@@ -609,7 +609,7 @@ namespace ceras
     Tsor minus( Tsor const& lhs, Tsor const& rhs ) noexcept
     {
         auto const& broadcasted_shape = broadcast_shape( lhs.shape(), rhs.shape() );
-        auto llhs = broadcast_tensor( lhs, broadcasted_shape );
+        auto llhs = broadcast_tensor( lhs, broadcasted_shape ).deep_copy(); // 'broadcast_tensor' may return a shallow copy of 'lhs'
         auto const& rrhs = broadcast_tensor( rhs, broadcasted_shape );
 
         for_each( llhs.begin(), llhs.end(), rrhs.begin(), []( auto& x, auto const& y ) noexcept { x -= y; } );
-- 
2.43.0


From 4328151f23da47a777d5dfbab6510800ce718ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 03/57] fix: parallel() executed indices twice or not at all
 for a range not starting from 0

---
 include/utils/parallel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/parallel.hpp b/include/utils/parallel.hpp
index 5320ffe..6446b7f 100644
--- a/include/utils/parallel.hpp
+++ b/include/utils/parallel.hpp
@@ -62,7 +62,7 @@ namespace ceras
                 threads.emplace_back( std::thread{ job_slice, first, last } );
             }
 
-            job_slice( tasks_per_thread*(total_cores-1), dim_last );
+            job_slice( std::min( static_cast<Integer_Type>(tasks_per_thread*(total_cores-1) + dim_first), dim_last ), dim_last );
 
             for ( auto& th : threads )
                 th.join();
-- 
2.43.0


From c188a357d07e8da202c135d2298c2ad7733f5a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 04/57] fix: max of a tensor with only negative elements

---
 include/tensor.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 61f7f59..f405db2 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1005,7 +1005,7 @@ namespace ceras
         typedef typename Tsor::value_type value_type;
         better_assert( tsor.size() != 0, "tensor::max error: input tensor should not be empty!" );
         if ( tsor.size() == 0 ) return value_type{0};
-        value_type ans = std::numeric_limits<value_type>::min();
+        value_type ans = std::numeric_limits<value_type>::lowest();
         for ( auto idx : range( tsor.size() ) )
             ans = std::max( tsor[idx], ans );
         return ans;
@@ -1187,7 +1187,7 @@ namespace ceras
     template <Tensor Tsor>
     Tsor max( Tsor const& ts, unsigned long axis, bool keepdims=false ) noexcept
     {
-        return reduce( ts, axis, std::numeric_limits<typename Tsor::value_type>::min(), []( auto const& a, auto const& b ){ return a > b ? a : b; }, keepdims );
+        return reduce( ts, axis, std::numeric_limits<typename Tsor::value_type>::lowest(), []( auto const& a, auto const& b ){ return a > b ? a : b; }, keepdims );
     }
 
     template <Tensor Tsor>
-- 
2.43.0


From 53968930c3b2da8d416903e21030bd472eeed5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 05/57] fix: memory_cache::gc() kept handing out the blocks it
 had released

---
 include/utils/cached_allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/utils/cached_allocator.hpp b/include/utils/cached_allocator.hpp
index d9be9a3..91e9003 100644
--- a/include/utils/cached_allocator.hpp
+++ b/include/utils/cached_allocator.hpp
@@ -105,6 +105,8 @@ namespace ceras
                 for ( auto& [size, address] : reserved_memory )
                     alloc.deallocate( address, size );
 
+                reserved_memory.clear();
+
                 return true;
             }
 
-- 
2.43.0


From 3724360ae1b3d7e03fd601f3ee67f92e9edfca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 06/57] fix: minimum propagated its gradient to the operand
 that was not selected

---
 include/operation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index c31ca59..ae0abc2 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2532,7 +2532,7 @@ namespace ceras
 
                 Tsor& ans = context_cast<Tsor>( forward_cache );
                 ans.resize( lhs_tensor.shape() );
-                Tsor& mask = context_cast<Tsor>( mask_cache ); // 1 if lhs element is larger, 0 if rhs element is larger
+                Tsor& mask = context_cast<Tsor>( mask_cache ); // 0 if lhs element is larger, 1 if rhs element is larger
                 mask.resize( lhs_tensor.shape() );
 
                 for_each( lhs_tensor.begin(), lhs_tensor.end(), rhs_tensor.begin(), ans.begin(), mask.begin(), []( auto const l, auto const r, auto& a, auto& m ) { m = l > r ? 0.0: 1.0 ; a = l > r ? r: l; } );
@@ -2548,7 +2548,7 @@ namespace ceras
                 Tsor& r_ans = context_cast<Tsor>( backward_cache_rhs );
                 r_ans.resize( rhs_input.shape() );
 
-                for_each( grad.begin(), grad.end(), mask.begin(), l_ans.begin(), r_ans.begin(), []( auto const g, auto const m, auto& l, auto& r ) { if ( m < 0.5 ) { l = g; r = 0.0; } else { l = 0.0; r = g; } } );
+                for_each( grad.begin(), grad.end(), mask.begin(), l_ans.begin(), r_ans.begin(), []( auto const g, auto const m, auto& l, auto& r ) { if ( m > 0.5 ) { l = g; r = 0.0; } else { l = 0.0; r = g; } } );
 
                 return std::make_tuple( l_ans, r_ans );
             },
-- 
2.43.0


From fc7a47358cd87611d6c457c60e44b56d9e7845df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 07/57] fix: sign of the gradient of atan2

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index ae0abc2..5ad9e79 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2581,7 +2581,7 @@ namespace ceras
                 l_ans.resize( lhs_input.shape() );
                 Tsor& r_ans = context_cast<Tsor>( backward_cache_rhs );
                 r_ans.resize( rhs_input.shape() );
-                for_each( grad.begin(), grad.end(), l_ans.begin(), r_ans.begin(), lhs_input.begin(), rhs_input.begin(), []( auto const g, auto& l, auto& r, auto const x, auto const y ) { auto const c = x*x+y*y; l = -g*y/c; r = g*x/c; } );
+                for_each( grad.begin(), grad.end(), l_ans.begin(), r_ans.begin(), lhs_input.begin(), rhs_input.begin(), []( auto const g, auto& l, auto& r, auto const x, auto const y ) { auto const c = x*x+y*y; l = g*y/c; r = -g*x/c; } );
                 return std::make_tuple( l_ans, r_ans );
             },
             "atan2"
-- 
2.43.0


From 34065f331eccb29b193eda050455add1949ae596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 08/57] fix: gradient of softplus

---
 include/activation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index c10ae63..dcbf139 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -191,7 +191,7 @@ namespace ceras
                                     {
                                         Tsor& ans = context_cast<Tsor>( backward_cache );
                                         ans.resize( input.shape() ); // 1 / ( 1 + exp(-x) )
-                                        for_each( ans.begin(), ans.end(), input.begin(), grad.begin(), []( auto& a, auto i, auto g ){ a = g / ( typename Tsor::value_type{1} - std::exp(-i) ); } );
+                                        for_each( ans.begin(), ans.end(), input.begin(), grad.begin(), []( auto& a, auto i, auto g ){ a = g / ( typename Tsor::value_type{1} + std::exp(-i) ); } );
                                         return ans;
                                     },
                                     "softplus"
-- 
2.43.0


From e1ce694f583adac61a61c93eb2d12b959ef7dc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 09/57] fix: gradient of elu

---
 include/activation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index dcbf139..f0b3b59 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -469,7 +469,7 @@ namespace ceras
                                         {
                                             typedef typename Tsor::value_type value_type;
                                             Tsor ans = grad;// OK for shallow copy
-                                            for_each( ans.begin(), ans.end(), input.begin(), [alpha]( value_type& v_back, value_type const v_in ){ v_back = (v_in >= value_type{0}) ? v_back : alpha*std::exp(v_back); } );
+                                            for_each( ans.begin(), ans.end(), input.begin(), [alpha]( value_type& v_back, value_type const v_in ){ v_back = (v_in >= value_type{0}) ? v_back : v_back*alpha*std::exp(v_in); } );
                                             return ans;
                                         },
                                         "elu",
-- 
2.43.0


From c0bb7bc2baa422a06c3e3c28cd7a20c7973d4f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 10/57] fix: operator > of place_holder was operator <

---
 include/place_holder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/place_holder.hpp b/include/place_holder.hpp
index 4c8eb06..0c6b4b9 100644
--- a/include/place_holder.hpp
+++ b/include/place_holder.hpp
@@ -118,7 +118,7 @@ namespace ceras
     template< Place_Holder Ph >
     bool operator > ( Ph const& lhs, Ph const& rhs )
     {
-        return lhs.id() < rhs.id();
+        return lhs.id() > rhs.id();
     }
 
     template< Place_Holder Ph >
-- 
2.43.0


From ff9ddf4eecc05fd08cb72508078ca53839868bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 11/57] fix: adadelta used a single accumulator for the squared
 gradients and the squared updates

---
 include/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 2c2afa0..3af5eb0 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -208,7 +208,7 @@ namespace ceras
                         contexts.push_back( zeros_like( data ) );
                     }
                     auto& moments = contexts[0];
-                    auto& delta = contexts[0];
+                    auto& delta = contexts[1];
 
                     /*
                     if (iterations_==0)
-- 
2.43.0


From 02cac1a42e41d70a3ebd11e943e03d954f634002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 12/57] fix: nesterov flag of sgd was inverted

---
 include/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 3af5eb0..a4b2846 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -58,7 +58,7 @@ namespace ceras
                         contexts.push_back( zeros_like( data ) );
                     auto& moments = contexts[0];
                     for_each( moments.begin(), moments.end(), gradient.begin(), [this]( T& m, T g ) { m *= (*this).momentum_; m -= (*this).learning_rate_ * g;} );
-                    if (!nesterov_ ) for_each( moments.begin(), moments.end(), data.begin(), gradient.begin(), [this]( T m, T& v, T g ) { v += (*this).momentum_ * m - (*this).learning_rate_ * g; } );
+                    if ( nesterov_ ) for_each( moments.begin(), moments.end(), data.begin(), gradient.begin(), [this]( T m, T& v, T g ) { v += (*this).momentum_ * m - (*this).learning_rate_ * g; } );
                     else data += moments;
 
                     gradient.reset(); // clear variable gradient
-- 
2.43.0


From c0a47b62302badecfae8c2f40f8dd778f616ca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 13/57] fix: conv2d derived the output columns from the row
 padding

---
 include/operation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 5ad9e79..b9a6895 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1695,7 +1695,7 @@ namespace ceras
             }
 
             unsigned long const row_output = ( row_input + 2 * row_padding - ( row_dilation * (row_kernel - 1) + 1 ) ) / row_stride + 1;
-            unsigned long const col_output = ( col_input + 2 * row_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
+            unsigned long const col_output = ( col_input + 2 * col_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
 
             auto lhs_ex_as_col = img2col(row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation)( lhs_ex ); // [BS, R, C, CH] ==> [r*c*CH, BS*new_row*new_col]
 
@@ -1748,7 +1748,7 @@ namespace ceras
             }
 
             unsigned long const row_output = ( row_input + 2 * row_padding - ( row_dilation * (row_kernel - 1) + 1 ) ) / row_stride + 1;
-            unsigned long const col_output = ( col_input + 2 * row_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
+            unsigned long const col_output = ( col_input + 2 * col_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
 
             auto lhs_ex_as_col = img2col(row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation)( lhs_ex ); // [BS, R, C, CH] ==> [r*c*CH, BS*new_row*new_col]
 
-- 
2.43.0


From 8704582f78bfbdbe80029976ed6d065d754daf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 14/57] fix: max_pooling_2d propagated gradients to the maxima
 of earlier forward passes

---
 include/operation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index b9a6895..e25aac7 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1974,7 +1974,7 @@ namespace ceras
 
                         Tsor& mask__ = context_cast<Tsor>( mask );
                         mask__.resize( input.shape() );
-
+                        std::fill( mask__.begin(), mask__.end(), value_type{0} ); // marks from the last forward pass
 
                         std::vector<unsigned long> shape = input.shape();
                         auto const[batch_size, row, col, channel] = std::make_tuple(shape[0], shape[1], shape[2], shape[3]);
@@ -2026,6 +2026,7 @@ namespace ceras
 
                         Tsor& ans = context_cast<Tsor>( backward_cache );
                         ans.resize( input.shape() );
+                        std::fill( ans.begin(), ans.end(), value_type{0} );
 
                         view_4d<value_type> ta{ ans.data(), batch_size, row, col, channel };
 
-- 
2.43.0


From 6a6618760152333684b393ce0ab566feef00758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 15/57] fix: average_pooling_2d read its gradient out of range
 if the stride does not divide the input size

---
 include/operation.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index e25aac7..db3f035 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2120,6 +2120,7 @@ namespace ceras
 
                     Tsor& ans = context_cast<Tsor>( backward_cache );
                     ans.resize( input.shape() );
+                    std::fill( ans.begin(), ans.end(), value_type{0} );
 
                     view_4d<value_type> ta{ ans.data(), batch_size, row, col, channel };
 
@@ -2128,8 +2129,8 @@ namespace ceras
 
                     value_type const factor = value_type{1} / static_cast<value_type>(stride*stride);
                     for ( auto bs : range( batch_size ) )
-                        for ( auto r : range( row ) )
-                            for ( auto c : range( col ) )
+                        for ( auto r : range( (row/stride)*stride ) ) // the remainders are not pooled
+                            for ( auto c : range( (col/stride)*stride ) )
                                 for ( auto ch : range( channel ) )
                                     ta[bs][r][c][ch] = factor * tg[bs][r/stride][c/stride][ch];
                     return ans;
-- 
2.43.0


From 87b4f547f00a450ad57b4d554080f86f367fd487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 16/57] fix: repeat and concatenate mixed iterators of
 temporary shapes, and concatenate swapped its operands

---
 include/operation.hpp |  3 ++-
 include/tensor.tcc    | 27 ++++++++++++++++-----------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index db3f035..0ea1a6a 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2418,7 +2418,8 @@ namespace ceras
 
                     // 2D view of grad
                     unsigned long const ax = (axe == (unsigned long)(-1)) ? grad.ndim()-1 : axe;
-                    unsigned long const g_col = std::accumulate( grad.shape().begin()+ax, grad.shape().end(), 1UL, []( unsigned long x, unsigned long y ){ return x*y; } );
+                    std::vector<unsigned long> const& g_shape = grad.shape();
+                    unsigned long const g_col = std::accumulate( g_shape.begin()+ax, g_shape.end(), 1UL, []( unsigned long x, unsigned long y ){ return x*y; } );
                     unsigned long const g_row = grad.size() / g_col;
                     view_2d<value_type> v_g{ grad.data(), g_row, g_col };
 
diff --git a/include/tensor.tcc b/include/tensor.tcc
index f405db2..7850920 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -757,7 +757,8 @@ namespace ceras
 
             std::vector<unsigned long>  new_shape;
             new_shape.push_back( n );
-            std::copy( tsor.shape().begin(), tsor.shape().end(), std::back_inserter( new_shape ) );
+            std::vector<unsigned long> const& old_shape = tsor.shape();
+            std::copy( old_shape.begin(), old_shape.end(), std::back_inserter( new_shape ) );
             ans.reshape( new_shape );
         }
 
@@ -914,19 +915,23 @@ namespace ceras
     template< Tensor Tsor >
     Tsor concatenate( Tsor const& lhs, Tsor const& rhs, unsigned long axis=0 ) noexcept
     {
+        // axis alignment
+        auto const& align_to = []( Tsor const& tsor, std::vector<unsigned long> const& target )
+        {
+            std::vector<unsigned long> const& shape = tsor.shape();
+            std::vector<unsigned long> new_shape{ target.begin(), target.begin()+target.size()-shape.size() };
+            unsigned long const dims_to_repeat = std::accumulate( new_shape.begin(), new_shape.end(), 1UL, [](auto x, auto y ){ return x*y; } );
+            auto new_tsor = repeat( tsor, dims_to_repeat );
+            std::copy( shape.begin(), shape.end(), std::back_inserter( new_shape ) );
+            new_tsor.reshape( new_shape );
+            return new_tsor;
+        };
+
         if ( lhs.ndim() < rhs.ndim() )
-            return concatenate( rhs, lhs, axis );
+            return concatenate( align_to( lhs, rhs.shape() ), rhs, axis );
 
-        // axis alignment
         if ( lhs.ndim() > rhs.ndim() )
-        {
-            unsigned long const dims_to_repeat = std::accumulate( lhs.shape().begin(), lhs.shape().begin()+lhs.ndim()-rhs.ndim(), 1UL, [](auto x, auto y ){ return x*y; } );
-            auto new_rhs = repeat( rhs, dims_to_repeat );
-            std::vector<unsigned long> new_shape{ lhs.shape().begin(), lhs.shape().begin()+lhs.ndim()-rhs.ndim() };
-            std::copy( rhs.shape().begin(), rhs.shape().end(), std::back_inserter( new_shape ) );
-            new_rhs.reshape( new_shape );
-            return concatenate( lhs, new_rhs, axis );
-        }
+            return concatenate( lhs, align_to( rhs, lhs.shape() ), axis );
 
         auto l_shape = lhs.shape();
         auto r_shape = rhs.shape();
-- 
2.43.0


From 2a5c0b699eb26af931670a8e9e382782a6838ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 17/57] fix: saving a session rounded the variables to 6 digits

---
 include/session.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/session.hpp b/include/session.hpp
index 3f8c609..9d39be7 100644
--- a/include/session.hpp
+++ b/include/session.hpp
@@ -123,6 +123,7 @@ namespace ceras
         {
             std::ofstream ofs{ file_path };
             better_assert( ofs.good(), "failed to open file ", file_path );
+            ofs.precision( std::numeric_limits<typename tensor_type::value_type>::max_digits10 ); // lossless
 
             // save id
             for ( auto const& [id, v] : variables_ )
-- 
2.43.0


From 5869a027250f8f508006894029bb02f5be147927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 18/57] fix: fit trained on the first batch of the validation
 split

---
 include/model.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/model.hpp b/include/model.hpp
index 7937e5e..5ec1345 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -206,7 +206,7 @@ namespace ceras
                     // forward pass
                     auto error = s.run( loss_ ).as_scalar();
                     // in case of training split, do backpropagation
-                    if ( l <= training_loops )
+                    if ( l < training_loops )
                     {
                         training_error += error;
                         s.run( compiled_optimizer_ );
-- 
2.43.0


From b69dcad09859f9ee4636c2ca0b883d8718ad571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 19/57] fix: shape calculators of reduce_min/max/sum read out
 of range for the default axis

---
 include/operation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 0ea1a6a..515f9c7 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -3341,7 +3341,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
@@ -3476,7 +3476,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto const new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
@@ -3592,7 +3592,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto const new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
-- 
2.43.0


From ec0e3f9dc22a4ac66a140293cf9226a16f297a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 20/57] fix: gelu evaluated its derivative at the incoming
 gradient

---
 include/activation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index f0b3b59..79f5a74 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -582,7 +582,7 @@ namespace ceras
         {
             auto const sq_2_pi_x = 0.79788456080286535588 * x;
             auto const _xx = x * x;
-            auto const ans = 0.5 * ( 1.0 + std::tanh( sq_2_pi_x * ( 1.0 + 0.044715 * _xx ) ) ) + sq_2_pi_x * sech_2( sq_2_pi_x * (1.0 + 0.044715 * _xx ) * ( 1.0 + 0.134145 * _xx) );
+            auto const ans = 0.5 * ( 1.0 + std::tanh( sq_2_pi_x * ( 1.0 + 0.044715 * _xx ) ) ) + 0.5 * sq_2_pi_x * sech_2( sq_2_pi_x * ( 1.0 + 0.044715 * _xx ) ) * ( 1.0 + 0.134145 * _xx );
             return static_cast<T>( ans );
         };
 
@@ -597,11 +597,11 @@ namespace ceras
                                         ans.map([_gelu](auto& x) { x = _gelu(x); });
                                         return ans;
                                     },
-                                    [_dgelu]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
+                                    [_dgelu]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                     {
                                         //typedef typename Tsor::value_type value_type;
                                         Tsor ans = grad;
-                                        for_each( ans.begin(), ans.end(), [&_dgelu]( auto& x ) {  x = _dgelu(x); } );
+                                        for_each( ans.begin(), ans.end(), input.begin(), [&_dgelu]( auto& a, auto x ) { a *= _dgelu(x); } );
                                         return ans;
                                     },
                                     "gelu"
-- 
2.43.0


From 45ca3ff7dbae4dccc000e14299b0dc2760c4bd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 21/57] fix: gradient of softmax ignored the off-diagonal terms
 of its jacobian

---
 include/activation.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 79f5a74..41c400f 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -109,7 +109,14 @@ namespace ceras
                                     {
                                         better_assert( !has_nan( grad ), "backprop: upcoming gradient for activation softmax contains NaN" );
                                         Tsor ans = grad;
-                                        for_each( ans.begin(), ans.end(), output.begin(), []( auto& a, auto o ) { a *= o * ( typename Tsor::value_type{1} - o ); } );
+                                        std::size_t const last_dim = *(output.shape().rbegin());
+                                        std::size_t const rest_dim = output.size() / last_dim;
+                                        for ( auto idx : range( rest_dim ) )
+                                        {
+                                            auto [begin, end, out] = std::make_tuple( ans.begin()+idx*last_dim, ans.begin()+(idx+1)*last_dim, output.begin()+idx*last_dim );
+                                            typename Tsor::value_type const dot = std::inner_product( begin, end, out, typename Tsor::value_type{0} );
+                                            for_each( begin, end, out, [dot]( auto& a, auto o ) { a = o * ( a - dot ); } );
+                                        }
                                         return ans;
                                     },
                                     "softmax"
-- 
2.43.0


From 0855deafea54e7e74cb8236dd0629d780b8d68ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 22/57] fix: mish and lisht multiplied matrices instead of
 elements

---
 include/activation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 41c400f..5936f75 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -680,7 +680,7 @@ namespace ceras
     template< Expression Ex >
     auto mish( Ex const& ex ) noexcept
     {
-        return ex*tanh(softplus(ex));
+        return hadamard_product( ex, tanh(softplus(ex)) );
     }
 
 
@@ -695,7 +695,7 @@ namespace ceras
     template< Expression Ex >
     auto lisht( Ex const& ex ) noexcept
     {
-        return ex*tanh(ex);
+        return hadamard_product( ex, tanh(ex) );
     }
 
 }//namespace ceras
-- 
2.43.0


From 86dad415f1c13236bb2432b2973b5b42c02056ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 23/57] fix: subtracting a complex expression from an
 expression added them

---
 include/complex_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex_operator.hpp b/include/complex_operator.hpp
index b0c959d..10f54fa 100644
--- a/include/complex_operator.hpp
+++ b/include/complex_operator.hpp
@@ -248,7 +248,7 @@ namespace ceras
     template< Complex C, Expression E >
     auto operator - ( E const& e, C const& c ) noexcept
     {
-        return c + e;
+        return complex{ e-real(c), negative(imag(c)) };
     }
 
     ///
-- 
2.43.0


From 1d22d49288b932ca9e7443568bae1032faffd49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 24/57] fix: dropout read its mask out of range for a growing
 batch and did not scale its gradient

---
 include/operation.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 515f9c7..f21791e 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1906,8 +1906,8 @@ namespace ceras
                         return input;
 
                     std::any& mask_ = *mask;
-                    // first run, initialize mask
-                    if ( !mask_.has_value() )
+                    // first run, or the batch size has changed, initialize mask
+                    if ( !mask_.has_value() || std::any_cast<Tsor&>( mask_ ).shape() != input.shape() )
                     {
                         Tsor const random_tensor = random<value_type>( input.shape() );
                         Tsor mask__{ input.shape() };
@@ -1926,8 +1926,10 @@ namespace ceras
                         ans[idx] *= mask__[idx] / (value_type{1} - factor);
                     return ans;
                 },
-                [mask, backward_cache]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
+                [factor, mask, backward_cache]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
                 {
+                    typedef typename Tsor::value_type value_type;
+
                     if ( learning_phase == 0 ) // defined in 'config.hpp'
                         return grad;
 
@@ -1937,7 +1939,7 @@ namespace ceras
                     ans.deep_copy( grad );
 
                     for ( auto idx : range( grad.size() ) )
-                        ans[idx] *= mask__[idx];
+                        ans[idx] *= mask__[idx] / (value_type{1} - factor);
                     return ans;
                 },
                 "dropout",
-- 
2.43.0


From 5a30dc54193d092ca482eb6c1b2e608bf583c5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 25/57] fix: normalization_batch never learned after an early
 prediction, and wrote out of range for a growing batch

---
 include/operation.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index f21791e..e876deb 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2338,6 +2338,8 @@ namespace ceras
 
                     // update global average and global variance
                     {
+                        if ( context_cast<Tsor>( global_average_cache ).empty() ) // a prediction before the training leaves an empty one
+                            global_average_cache->reset();
                         Tsor& global_average = context_cast<Tsor>( global_average_cache, zeros_like( average ) );
                         // Note: No obvious different is observed between initializing global_variance to zeros and to ones with MNIST example:
                         //       initializing global_variance to zeros, after 10 epochs mnist gives an error of 0.026
@@ -2364,6 +2366,7 @@ namespace ceras
                     unsigned long const rest_dims = input.size() / channels;
 
                     Tsor& ans = context_cast<Tsor>( backward_cache, zeros_like( input ) );
+                    ans.resize( input.shape() ); // the batch sizes are not necessarily same
                     view_2d<value_type> ans_{ans.data(), rest_dims, channels };
                     view_2d<value_type> grad_{grad.data(), rest_dims, channels };
                     for ( auto r : range( rest_dims ) )
-- 
2.43.0


From dc2bf19fee1889a1904c786e8855957235f68c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 26/57] fix: zero_padding_2d left earlier data in its border if
 the input shape changed

---
 include/operation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index e876deb..984c3e5 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2777,6 +2777,7 @@ namespace ceras
                         // 4D view of output tensor
                         Tsor& ans = context_cast<Tsor>( forward_cache );
                         ans.resize( {batch_size, top+row+bottom, left+col+right, channel} );
+                        std::fill( ans.begin(), ans.end(), value_type{0} );
                         view_4d<value_type> ta{ ans.data(), batch_size, top+row+bottom, left+col+right, channel };
 
                         for ( auto bs : range( batch_size ) )
-- 
2.43.0


From 5924b3d3a6ad5245afb70575b609b0a7cb0c2808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 27/57] fix: sliding_2d lost its shifts before the backward
 pass

---
 include/operation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 984c3e5..2dfcd36 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -3024,7 +3024,7 @@ namespace ceras
                         auto const[batch_size, row, col, channel] = std::make_tuple(shape[0], shape[1], shape[2], shape[3]);
                         view_4d vi{tsor.data(), batch_size, row, col, channel};
 
-                        tensor<long> shifts = context_cast<tensor<long>>( shift_cache );
+                        tensor<long>& shifts = context_cast<tensor<long>>( shift_cache );
                         shifts.resize( {channel, 2} );
                         {   //generating random shifts
                             std::uniform_int_distribution<long> distribution( -pixels, pixels );
@@ -3064,7 +3064,7 @@ namespace ceras
                         std::vector<unsigned long> const& shape = grad.shape();
                         auto const[batch_size, row, col, channel] = std::make_tuple( shape[0], shape[1], shape[2], shape[3] );
                         view_4d vi{grad.data(), batch_size, row, col, channel};
-                        tensor<long> shifts = context_cast<tensor<long>>( shift_cache );
+                        tensor<long>& shifts = context_cast<tensor<long>>( shift_cache );
                         view_2d _shifts{shifts.data(), channel, 2};
 
                         Tsor& ans = context_cast<Tsor>( backward_cache );
-- 
2.43.0


From ca7b5f6176e9415b325fdded1a04aa8ca1976dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 28/57] fix: img2col reused its index record for another image
 shape of same size

---
 include/operation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 2dfcd36..d1c8443 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1535,8 +1535,9 @@ namespace ceras
         if ( col_kernel == (unsigned long)-1 ) col_kernel = row_kernel;
 
         std::shared_ptr<std::vector<std::uint32_t>> s_index_record = std::make_shared<std::vector<std::uint32_t>>(); // col_img[idx] = img[index_record[idx]]  -- (-1) for zero padding
+        std::shared_ptr<std::vector<unsigned long>> s_index_shape = std::make_shared<std::vector<unsigned long>>(); // the image shape the index record is made for
 
-        auto img2col_forward = [s_index_record]<Tensor Tsor>
+        auto img2col_forward = [s_index_record, s_index_shape]<Tensor Tsor>
         (
             Tsor const& input_img, Tsor& output_col_mat,
             unsigned long kernel_row, unsigned long kernel_col,
@@ -1559,8 +1560,9 @@ namespace ceras
 
             output_col_mat.resize( {output_column_matrix_row, output_column_matrix_col} );
 
-            if ( index_record.size() != output_column_matrix_row * output_column_matrix_col ) // first-run?
+            if ( *s_index_shape != input_shape ) // first-run?
             {
+                *s_index_shape = input_shape;
                 index_record.resize( output_column_matrix_row * output_column_matrix_col );
 
                 for ( auto bs : range( BS ) )
-- 
2.43.0


From d4797b7e1cea0e3533203581124840e35b672a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 29/57] fix: results returned from session::run were
 overwritten by the next run

---
 include/session.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/session.hpp b/include/session.hpp
index 9d39be7..57efeb8 100644
--- a/include/session.hpp
+++ b/include/session.hpp
@@ -59,7 +59,10 @@ namespace ceras
         auto run( Operation& op )
         {
             clear_forward_cache();
-            return op.forward();
+            if constexpr ( std::same_as<std::remove_cvref_t<decltype(op.forward())>, tensor_type> )
+                return op.forward().deep_copy(); // operators reuse their output memory in the next run
+            else
+                return op.forward();
         }
 
         // register variables associated to the op to this session
-- 
2.43.0


From 1328da84165089c33f85864ee3a4d966c0c2cfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 30/57] fix: matrix times vector resized the vector to the size
 of the matrix

---
 include/tensor.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 7850920..20c438a 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -675,7 +675,7 @@ namespace ceras
             return multiply( reshape( lhs, {1UL, lhs.size()} ), rhs, ans );
 
         if ( 1 == rhs.ndim() )
-            return multiply( lhs, reshape( rhs, {lhs.size(), 1UL} ), ans );
+            return multiply( lhs, reshape( rhs, {rhs.size(), 1UL} ), ans );
 
         better_assert( 2 == rhs.ndim(), "expecting rhs tensor has 2 dimensions, but got ", rhs.ndim() );
 
-- 
2.43.0


From 68ad1c150fd9e2d2ea80c26c2919d0e9aadade65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 31/57] fix: save_tensor rounded the last bits

---
 include/tensor.tcc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 20c438a..03fd063 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1297,12 +1297,8 @@ namespace ceras
     {
         std::ofstream ofs{ file_name };
         typedef typename Tsor::value_type value_type;
-        if constexpr (std::is_same_v<value_type, float> )
-            ofs.precision( 8 );
-        else if constexpr (std::is_same_v<value_type, double> )
-            ofs.precision( 15 );
-        else if constexpr (std::is_same_v<value_type, long double> )
-            ofs.precision( 25 );
+        if constexpr (std::is_floating_point_v<value_type> )
+            ofs.precision( std::numeric_limits<value_type>::max_digits10 ); // lossless
 
         write_tensor( ofs, tsor );
         ofs.close();
-- 
2.43.0


From 60ac3698b9b11532e17073019bff612710999742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 32/57] fix: a variable used more than once in an expression
 was regularized more than once

---
 include/variable.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/variable.hpp b/include/variable.hpp
index 37d4b55..41273a6 100644
--- a/include/variable.hpp
+++ b/include/variable.hpp
@@ -29,6 +29,7 @@ namespace ceras
         Tsor data_;
         Tsor gradient_;
         std::vector<Tsor> contexts_;
+        bool regularized_ = false; // shared by all the copies of a variable, as they share the gradient
     };
 
     template< typename Float > requires std::floating_point<Float>
@@ -77,7 +78,7 @@ namespace ceras
             {
                 typedef typename tensor_type::value_type value_type;
                 state.gradient_.reset( value_type{0} );
-                regularizer_.synchronized_ = false; // mark changes
+                state.regularized_ = false; // mark changes
             }
             return state.data_;
         }
@@ -94,7 +95,7 @@ namespace ceras
             state.gradient_ += grad; // collecting all the gradients from its children nodes, will be called mulitple times in a single backward pass
 
             // apply regularizers
-            if (!(regularizer_.synchronized_)) // in case of multiple invoke of this method in a same backward pass
+            if (!state.regularized_) // in case of multiple invoke of this method in a same backward pass
             {
                 if ( regularizer_.l1_ >= eps ) // l1 regularizer
                 {
@@ -107,7 +108,7 @@ namespace ceras
                     for_each( state.data_.begin(), state.data_.end(), state.gradient_.begin(), [factor]( value_type d, value_type& g ){ g += value_type{2} * d * factor; } );
                 }
 
-                regularizer_.synchronized_ = true;
+                state.regularized_ = true;
             }
         }
 
-- 
2.43.0


From fc2778023eda33712e1e334819cbde37ba780618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 33/57] fix: gradient of mean_reduce divided by the first
 dimension instead of the number of elements

---
 include/operation.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index d1c8443..b5446b1 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -976,8 +976,7 @@ namespace ceras
                                         better_assert( grad.size() == 1, "mean_reduce should only output one value" );
                                         Tsor ans = ones_like( input );
                                         ans *= grad[0];
-                                        unsigned long const batch_size = (input.shape().size() == 1) ? 1 : (*(input.shape().begin()));
-                                        ans /= static_cast<typename Tsor::value_type>(batch_size);
+                                        ans /= static_cast<typename Tsor::value_type>(input.size()); // the forward pass averages over all the elements
                                         return ans;
                                     },
                                     "mean_reduce",
-- 
2.43.0


From 263f233cd8ce43561f4b5b62d568e80f51b0413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 34/57] fix: the gradient of conv2d_transpose did not compile

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index b5446b1..0b13533 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1833,7 +1833,7 @@ namespace ceras
 
                     std::vector<unsigned long> const& output_shape = grad.shape();
                     auto [_bs, o_row, o_col, _ch] = std::make_tuple( output_shape[0], output_shape[1], output_shape[2], output_shape[3] );
-                    view_4d<value_type> g_4d{ grad.data(), bs, o_row, o_col, ch };
+                    view_4d<value_type const> g_4d{ grad.data(), bs, o_row, o_col, ch };
 
                     unsigned long row_offset = (padding == std::string{"valid"}) ? (row_kernel-1) : 0;
                     unsigned long col_offset = (padding == std::string{"valid"}) ? (col_kernel-1) : 0;
-- 
2.43.0


From afa61c9d3ece7ebf749a36d2459d2db75ace9d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 35/57] fix: convolution paired the channels of image patches
 and kernel in different orders

---
 include/operation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 0b13533..63ddd8f 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1570,9 +1570,9 @@ namespace ceras
                     std::int64_t const im_offset = bs * R * C * CH;
                     for ( auto c : range( CH * kernel_row * kernel_col ) )
                     {
-                        std::int64_t const w_offset = c % kernel_col;
-                        std::int64_t const h_offset = ( c / kernel_col ) % kernel_row;
-                        std::int64_t const c_im = c / ( kernel_col * kernel_row );
+                        std::int64_t const c_im = c % CH; // rows are ordered as the elements of a kernel of shape [r, c, CH]
+                        std::int64_t const w_offset = ( c / CH ) % kernel_col;
+                        std::int64_t const h_offset = c / ( CH * kernel_col );
 
                         for ( auto h : range( output_row ) )
                         {
-- 
2.43.0


From 723abaf7a1418fef7e7191c725bb8a4f0614fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 36/57] fix: parallel loop left its range when the range ends
 near the largest value of the index type

---
 include/utils/parallel.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/utils/parallel.hpp b/include/utils/parallel.hpp
index 6446b7f..f4826a0 100644
--- a/include/utils/parallel.hpp
+++ b/include/utils/parallel.hpp
@@ -51,18 +51,15 @@ namespace ceras
             };
 
             threads.reserve( total_cores-1 );
-            std::uint_least64_t tasks_per_thread = ( dim_last - dim_first + total_cores - 1 ) / total_cores;
+            std::uint_least64_t const total_tasks = dim_last - dim_first;
+            std::uint_least64_t const tasks_per_thread = ( total_tasks + total_cores - 1 ) / total_cores;
+            // boundary of a slice; the offset is clamped before being added to dim_first, such that it never exceeds the range of Integer_Type
+            auto const& boundary = [=]( std::uint_least64_t index ) { return static_cast<Integer_Type>( dim_first + std::min( tasks_per_thread*index, total_tasks ) ); };
 
             for ( auto index : range( total_cores-1 ) )
-            {
-                Integer_Type first = tasks_per_thread * index + dim_first;
-                first = std::min( first, dim_last );
-                Integer_Type last =  first + tasks_per_thread;
-                last = std::min( last, dim_last );
-                threads.emplace_back( std::thread{ job_slice, first, last } );
-            }
+                threads.emplace_back( std::thread{ job_slice, boundary( index ), boundary( index+1 ) } );
 
-            job_slice( std::min( static_cast<Integer_Type>(tasks_per_thread*(total_cores-1) + dim_first), dim_last ), dim_last );
+            job_slice( boundary( total_cores-1 ), dim_last );
 
             for ( auto& th : threads )
                 th.join();
-- 
2.43.0


From 8538bf67ad2e354491c7f2f2ea80b9ad852d918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 37/57] fix: leaky_relu and elu did not compile

---
 include/activation.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 5936f75..1f13b5a 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -415,7 +415,7 @@ namespace ceras
                                         {
                                             Tsor& ans = context_cast<Tsor>( forward_cache );
                                             ans.resize( input.shape()  );
-                                            for_each( ans.begin(), ans.end(), input.begin(), [factor]( auto& v_out, auto v_in ){ v_out = std::max( T{v_in}, T{factor*v_in} ); } );
+                                            for_each( ans.begin(), ans.end(), input.begin(), [factor]( auto& v_out, auto v_in ){ v_out = (v_in > 0) ? v_in : factor*v_in; } );
                                             return ans;
                                         },
                                         [factor]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
@@ -426,7 +426,8 @@ namespace ceras
                                             return ans;
                                         },
                                         "leaky_relu",
-                                        make_argumented_unary_operator_serializer( factor )
+                                        identity_output_shape_calculator{},
+                                        make_argumented_operator_serializer( factor )
                     )( ex );
         };
     }
@@ -480,7 +481,8 @@ namespace ceras
                                             return ans;
                                         },
                                         "elu",
-                                        make_argumented_unary_operator_serializer( alpha )
+                                        identity_output_shape_calculator{},
+                                        make_argumented_operator_serializer( alpha )
                     )( ex );
         };
     }
-- 
2.43.0


From 373ffcb16d6d2b6a7e7f3717398332eed87efa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 38/57] fix: softplus overflowed for large inputs

---
 include/activation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 1f13b5a..2db9913 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -191,7 +191,7 @@ namespace ceras
                                         Tsor& ans = context_cast<Tsor>( forward_cache );
                                         ans.resize( input.shape() );
                                         std::copy( input.begin(), input.end(), ans.begin() );
-                                        ans.map( [](auto& x){ x = std::log(1.0+std::exp(x)); } ); // ln( 1+e^x )
+                                        ans.map( [](auto& x){ x = ( x > 0 ? x : 0 ) + std::log1p( std::exp( -std::abs(x) ) ); } ); // ln( 1+e^x ), exp shall not overflow for a large x
                                         return ans;
                                     },
                                     [backward_cache]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
-- 
2.43.0


From 711bff91b51e309a9ce2866d89f7202aac1b6f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 39/57] fix: gradient of log1p

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 63ddd8f..1c9d2e5 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -4424,7 +4424,7 @@ namespace ceras
                                     {
                                         Tsor& ans = context_cast<Tsor>( backward_cache );
                                         ans.resize( input.shape() );
-                                        for_each( input.begin(), input.end(), grad.begin(), ans.begin(), []( auto x, auto g, auto& v ) noexcept { v = g / x; } );
+                                        for_each( input.begin(), input.end(), grad.begin(), ans.begin(), []( auto x, auto g, auto& v ) noexcept { v = g / ( x + 1 ); } );
                                         return ans;
                                     },
                                     "log1p"
-- 
2.43.0


From ff0c043f28a09f7a5a20aff16cf02f87f55751e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 40/57] fix: an expression times a complex expression
 multiplied in the wrong order

---
 include/complex_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex_operator.hpp b/include/complex_operator.hpp
index 10f54fa..0a3085f 100644
--- a/include/complex_operator.hpp
+++ b/include/complex_operator.hpp
@@ -266,7 +266,7 @@ namespace ceras
     template< Complex C, Expression E >
     auto operator * ( E const& e, C const& c ) noexcept
     {
-        return c * e;
+        return complex{ e*real(c), e*imag(c) };
     }
 
 
-- 
2.43.0


From d78bfbcce7e3fa5240ae79bccbe03e6ad5d76149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:37 +0000
Subject: [PATCH 41/57] fix: an optimizer started from the moments of the
 optimizer used before

---
 include/optimizer.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index a4b2846..28285ca 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -54,8 +54,8 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = v.contexts();
-                    if ( contexts.empty() ) // create context
-                        contexts.push_back( zeros_like( data ) );
+                    if ( contexts.empty() || iterations_ == 0 ) // create context, not inheriting that of another optimizer
+                        contexts = { zeros_like( data ), };
                     auto& moments = contexts[0];
                     for_each( moments.begin(), moments.end(), gradient.begin(), [this]( T& m, T g ) { m *= (*this).momentum_; m -= (*this).learning_rate_ * g;} );
                     if ( nesterov_ ) for_each( moments.begin(), moments.end(), data.begin(), gradient.begin(), [this]( T m, T& v, T g ) { v += (*this).momentum_ * m - (*this).learning_rate_ * g; } );
@@ -99,8 +99,8 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = v.contexts();
-                    if ( contexts.empty() ) // create context
-                        contexts.push_back( zeros_like( data ) );
+                    if ( contexts.empty() || iterations_ == 0 ) // create context, not inheriting that of another optimizer
+                        contexts = { zeros_like( data ), };
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
                     auto& moments = contexts[0];
 
@@ -150,8 +150,8 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = v.contexts();
-                    if ( contexts.empty() ) // create context
-                        contexts.push_back( zeros_like( data ) );
+                    if ( contexts.empty() || iterations_ == 0 ) // create context, not inheriting that of another optimizer
+                        contexts = { zeros_like( data ), };
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
                     auto& moments = contexts[0];
 
@@ -200,12 +200,11 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = v.contexts();
-                    if ( contexts.empty() ) // create context
+                    if ( contexts.empty() || iterations_ == 0 ) // create context, not inheriting that of another optimizer
                     {
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
-                        contexts.push_back( zeros_like( data ) );
-                        contexts.push_back( zeros_like( data ) );
+                        contexts = { zeros_like( data ), zeros_like( data ) };
                     }
                     auto& moments = contexts[0];
                     auto& delta = contexts[1];
@@ -275,12 +274,11 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = v.contexts();
-                    if ( contexts.empty() ) // create context
+                    if ( contexts.empty() || iterations_ == 0 ) // create context, not inheriting that of another optimizer
                     {
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
-                        contexts.push_back( zeros_like( data ) );
-                        contexts.push_back( zeros_like( data ) );
+                        contexts = { zeros_like( data ), zeros_like( data ) };
                     }
                     auto& m = contexts[0];
                     auto& v = contexts[1];
-- 
2.43.0


From 5e2357e9959d29a79c36c2d7f6bf3e8e6878de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:21 +0000
Subject: [PATCH 42/57] fix: gradient_descent ignored its momentum

---
 include/optimizer.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 28285ca..39c48e2 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -324,8 +324,9 @@ namespace ceras
         Loss& loss_;
         T learning_rate_;
         T momentum_;
+        unsigned long iterations_;
 
-        gradient_descent(Loss& loss, std::size_t batch_size, T learning_rate=1.0e-3, T momentum=0.0) noexcept : loss_(loss), learning_rate_(learning_rate), momentum_(momentum)
+        gradient_descent(Loss& loss, std::size_t batch_size, T learning_rate=1.0e-3, T momentum=0.0) noexcept : loss_(loss), learning_rate_(learning_rate), momentum_(momentum), iterations_{0}
         {
             learning_rate_ /= static_cast<T>( batch_size ); // fix for batch size
         }
@@ -344,7 +345,12 @@ namespace ceras
                     //
                     auto& gradient = v.gradient();
                     better_assert( !has_nan(gradient), "gradient_descent error, tensor with id ", id, " has a nan value." );
-                    v.data() -= learning_rate_ * gradient;
+                    auto& contexts = v.contexts();
+                    if ( contexts.empty() || iterations_ == 0 ) // create context, not inheriting that of another optimizer
+                        contexts = { zeros_like( v.data() ), };
+                    auto& moments = contexts[0];
+                    for_each( moments.begin(), moments.end(), gradient.begin(), [this]( T& m, T g ) { m *= (*this).momentum_; m -= (*this).learning_rate_ * g; } );
+                    v.data() += moments;
                     if (0)
                     {
                         std::ofstream ofs{ fmt::format("./debug/weight_{}.txt", id) };
@@ -356,6 +362,7 @@ namespace ceras
                     gradient.reset(); // clear variable gradient
                 }
             }
+            ++iterations_;
         }
 
     };
-- 
2.43.0


From 43cd9ec65e24e44aa1692f2d4a9bd52a8a1a865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:52 +0000
Subject: [PATCH 43/57] fix: fit ran its validation batches in the learning
 phase

---
 include/model.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/model.hpp b/include/model.hpp
index 5ec1345..38c2e85 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -204,6 +204,7 @@ namespace ceras
                     std::copy_n( inputs.data() + l * input_size_per_batch, input_size_per_batch, input_samples.data() );
                     std::copy_n( outputs.data() + l * output_size_per_batch, output_size_per_batch, output_samples.data() );
                     // forward pass
+                    learning_phase = ( l < training_loops ) ? 1 : 0; // the validation split is only evaluated
                     auto error = s.run( loss_ ).as_scalar();
                     // in case of training split, do backpropagation
                     if ( l < training_loops )
@@ -216,6 +217,7 @@ namespace ceras
                         validation_error += error;
                     }
                 }
+                learning_phase = 1; // restore learning phase
                 training_errors.push_back( training_error / training_loops );
                 validation_errors.push_back( validation_error / validation_loops );
                 if ( verbose )
-- 
2.43.0


From 2ae5313ce0206b9cbc12936b33e6368f8807169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:46 +0000
Subject: [PATCH 44/57] fix: the gradient of batch normalization left out the
 batch statistics

---
 include/operation.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 1c9d2e5..a99b1b7 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2357,7 +2357,7 @@ namespace ceras
                     return ans;
                 },
 
-                [=]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
+                [=]<Tensor Tsor>( Tsor const& input, Tsor const& output, Tsor const& grad ) noexcept
                 {
                     typedef typename Tsor::value_type value_type;
                     Tsor& variance = context_extract<Tsor>( variance_cache );
@@ -2370,9 +2370,20 @@ namespace ceras
                     ans.resize( input.shape() ); // the batch sizes are not necessarily same
                     view_2d<value_type> ans_{ans.data(), rest_dims, channels };
                     view_2d<value_type> grad_{grad.data(), rest_dims, channels };
-                    for ( auto r : range( rest_dims ) )
-                        for ( auto c : range( channels ) )
-                            ans_[r][c] = grad_[r][c] / std::sqrt( variance[c] + eps );
+                    view_2d<value_type> output_{output.data(), rest_dims, channels };
+                    for ( auto c : range( channels ) )
+                    {
+                        value_type average_grad = 0; // the average and the variance of the batch depend on the input, too
+                        value_type average_product = 0;
+                        if ( learning_phase != 0 )
+                            for ( auto r : range( rest_dims ) )
+                            {
+                                average_grad += grad_[r][c] / rest_dims;
+                                average_product += grad_[r][c] * output_[r][c] / rest_dims;
+                            }
+                        for ( auto r : range( rest_dims ) )
+                            ans_[r][c] = ( grad_[r][c] - average_grad - output_[r][c] * average_product ) / std::sqrt( variance[c] + eps );
+                    }
                     return ans;
                 },
                 "normalization_batch",
-- 
2.43.0


From b7e0539d46491d6145b32fc6a8d98f710727a0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:27 +0000
Subject: [PATCH 45/57] fix: BMP, TGA, HDR and JPEG files began with
 uninitialised bytes

---
 include/utils/3rd_party/stb_image_write.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utils/3rd_party/stb_image_write.h b/include/utils/3rd_party/stb_image_write.h
index df4de33..c67772f 100644
--- a/include/utils/3rd_party/stb_image_write.h
+++ b/include/utils/3rd_party/stb_image_write.h
@@ -276,6 +276,7 @@ static void stbi__start_write_callbacks(stbi__write_context *s, stbi_write_func
 {
    s->func    = c;
    s->context = context;
+   s->buf_used = 0;
 }
 
 #ifndef STBI_WRITE_NO_STDIO
-- 
2.43.0


From 917599607974f30fb650debdf95ec9b4d7bf48c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:15 +0000
Subject: [PATCH 46/57] fix: resizing a gray image read and wrote two channels

---
 include/utils/imageio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/imageio.hpp b/include/utils/imageio.hpp
index 025d1e8..0913116 100644
--- a/include/utils/imageio.hpp
+++ b/include/utils/imageio.hpp
@@ -20,7 +20,7 @@ namespace ceras::imageio
         }
         else
         {
-            stbir_resize_uint8( input_image.data(), input_shape[0], input_shape[1], 0, ans.data(), output_shape[0], output_shape[1], 0, 2 ); // gray
+            stbir_resize_uint8( input_image.data(), input_shape[0], input_shape[1], 0, ans.data(), output_shape[0], output_shape[1], 0, 1 ); // gray
         }
 
         return ans;
-- 
2.43.0


From 21752d6477f3714a7361191ed570db20c3f114c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:04 +0000
Subject: [PATCH 47/57] fix: writing an image to a path without a dot threw
 out_of_range

---
 include/utils/imageio.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils/imageio.hpp b/include/utils/imageio.hpp
index 0913116..aa337d0 100644
--- a/include/utils/imageio.hpp
+++ b/include/utils/imageio.hpp
@@ -52,7 +52,8 @@ namespace ceras::imageio
 
         // setting up extension
         std::string full_path = path;
-        std::string file_extension=full_path.substr(full_path.find_last_of('.'));
+        auto const dot = full_path.find_last_of('.');
+        std::string file_extension = dot == std::string::npos ? std::string{} : full_path.substr(dot);
         if ( file_extension.empty() )
         {
             full_path += std::string{".png"};
-- 
2.43.0


From 6e90f1860c7016a3036aafd9f951768c81af200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 48/57] fix: applying a model to an expression and
 model::trainable did not compile

---
 include/model.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/model.hpp b/include/model.hpp
index 38c2e85..44904a0 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -23,12 +23,12 @@ namespace ceras
         }
         else if constexpr (is_binary_operator_v<Ex>)
         {
-            make_trainable( ex.lhs_op_, t );
-            make_trainable( ex.rhs_op_, t );
+            make_trainable( ex.lhs_op(), t );
+            make_trainable( ex.rhs_op(), t );
         }
         else if constexpr (is_unary_operator_v<Ex>)
         {
-            make_trainable( ex.op_, t );
+            make_trainable( ex.op(), t );
         }
     }
 
@@ -54,13 +54,13 @@ namespace ceras
         }
         else if constexpr (is_unary_operator_v<Ex>)
         {
-            return make_unary_operator( ex.forward_action_, ex.backward_action_, ex.name_, ex.output_shape_calculator_ )( replace_placeholder_with_expression( ex.op_, old_place_holder, new_expression ) );
+            return make_unary_operator( ex.forward_action(), ex.backward_action(), ex.name_, ex.output_shape_calculator(), ex.serializer() )( replace_placeholder_with_expression( ex.op(), old_place_holder, new_expression ) );
         }
         else if constexpr (is_binary_operator_v<Ex>)
         {
-            return make_binary_operator( ex.forward_action_, ex.backward_action_, ex.name_, ex.output_shape_calculator_ )
-                                       ( replace_placeholder_with_expression( ex.lhs_op_, old_place_holder, new_expression ),
-                                         replace_placeholder_with_expression( ex.rhs_op_, old_place_holder, new_expression ) );
+            return make_binary_operator( ex.forward_action(), ex.backward_action(), ex.name_, ex.output_shape_calculator(), ex.serializer() )
+                                       ( replace_placeholder_with_expression( ex.lhs_op(), old_place_holder, new_expression ),
+                                         replace_placeholder_with_expression( ex.rhs_op(), old_place_holder, new_expression ) );
         }
         else
         {
-- 
2.43.0


From e903509b8f5e25eecf4b3d308fb97830b9a995a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:44 +0000
Subject: [PATCH 49/57] fix: trainable(false) did not reach the variables an
 optimizer updates

---
 include/optimizer.hpp | 12 ++++++------
 include/variable.hpp  | 15 ++++++++-------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 39c48e2..e280366 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -49,7 +49,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -94,7 +94,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -145,7 +145,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -195,7 +195,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -269,7 +269,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -339,7 +339,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto& [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     //v.data() -= learning_rate_ * (v.gradient());
                     //
diff --git a/include/variable.hpp b/include/variable.hpp
index 41273a6..c52a4a5 100644
--- a/include/variable.hpp
+++ b/include/variable.hpp
@@ -29,6 +29,7 @@ namespace ceras
         Tsor data_;
         Tsor gradient_;
         std::vector<Tsor> contexts_;
+        bool trainable_ = true; // shared by all the copies of a variable, including the one an optimizer updates
         bool regularized_ = false; // shared by all the copies of a variable, as they share the gradient
     };
 
@@ -51,11 +52,11 @@ namespace ceras
 
         std::shared_ptr<variable_state<tensor_type>> state_;
         regularizer<value_type> regularizer_;
-        bool trainable_;
 
-        variable( tensor_type const& data, value_type l1=value_type{0}, value_type l2=value_type{0}, bool trainable=true ) : enable_id<variable<tensor_type>, "Variable">{}, regularizer_{l1, l2, true}, trainable_{trainable}
+        variable( tensor_type const& data, value_type l1=value_type{0}, value_type l2=value_type{0}, bool trainable=true ) : enable_id<variable<tensor_type>, "Variable">{}, regularizer_{l1, l2, true}
         {
             (*this).state_ = std::make_shared<variable_state<tensor_type>>();
+            (*((*this).state_)).trainable_ = trainable;
             (*((*this).state_)).data_ = data;
             (*((*this).state_)).gradient_ = tensor_type{ data.shape() };
 
@@ -85,9 +86,9 @@ namespace ceras
 
         void backward( auto const& grad ) noexcept
         {
-            if (!trainable_) return;
-
             auto& state = *((*this).state_);
+            if (!state.trainable_) return;
+
             {
                 if (state.gradient_.shape() != state.data_.shape())
                     state.gradient_.resize( state.data_.shape() );
@@ -160,10 +161,10 @@ namespace ceras
             gradient().reset();
         }
 
-        bool trainable() const noexcept { return trainable_; }
-        bool& trainable() noexcept { return trainable_; }
+        bool trainable() const noexcept { return (*((*this).state_)).trainable_; }
+        bool& trainable() noexcept { return (*((*this).state_)).trainable_; }
 
-        void trainable( bool t ) { trainable_ = t; }
+        void trainable( bool t ) { (*((*this).state_)).trainable_ = t; }
 
         value_type l1_regularizer() const
         {
-- 
2.43.0


From 631d1b6bda65b3ea454d3bfb25c098c405c20114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:10 +0000
Subject: [PATCH 50/57] fix: assigning random_seed had no effect

---
 include/tensor.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/tensor.hpp b/include/tensor.hpp
index 305226a..f5d9b7a 100644
--- a/include/tensor.hpp
+++ b/include/tensor.hpp
@@ -28,10 +28,23 @@ namespace ceras
     /// random_seed=42;
     /// \endcode
     ///
-    static unsigned long random_seed = std::chrono::system_clock::now().time_since_epoch().count();
+    struct random_seed_type
+    {
+        unsigned long seed_;
+        random_seed_type& operator = ( unsigned long seed ); // restarts the random_generator
+        operator unsigned long() const noexcept { return seed_; }
+    };
+    inline random_seed_type random_seed{ static_cast<unsigned long>( std::chrono::system_clock::now().time_since_epoch().count() ) };
+
+    // random number random_generator
+    inline std::mt19937 random_generator{ static_cast<std::mt19937::result_type>( random_seed ) };
 
-    // static random number random_generator
-    static std::mt19937 random_generator{random_seed};
+    inline random_seed_type& random_seed_type::operator = ( unsigned long seed )
+    {
+        seed_ = seed;
+        random_generator.seed( static_cast<std::mt19937::result_type>( seed ) );
+        return *this;
+    }
 
     template< typename T >
     using default_allocator = cached_allocator<T>;
-- 
2.43.0


From b6adb6b801d3f5139d01e04696c529e7190df598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:52 +0000
Subject: [PATCH 51/57] fix: pow did not compile

---
 include/operation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index a99b1b7..b364352 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -4946,6 +4946,7 @@ namespace ceras
                                         return ans;
                                     },
                                     "pow",
+                                    identity_output_shape_calculator{},
                                     [exponent]<Expression Self_Expression, Expression Input_Expression>( Self_Expression const& self_expression, Input_Expression const& input_expression ) noexcept
                                     { // serializer
                                         auto const& [input_expression_name, input_expression_code] = serialize( input_expression );
-- 
2.43.0


From 2a54cc76467f7b065ee61d0774879deaa8f8c86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 52/57] fix: scalar / expression did not compile

---
 include/operation.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index b364352..b8bc906 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -794,13 +794,6 @@ namespace ceras
         return ex * ( 1.0 / rhs_val );
     }
 
-    template< Expression Ex, arithmetic A >
-    auto constexpr operator / ( A const& lhs_val, Ex const& ex ) noexcept
-    {
-        return ex * inverse( lhs_val );
-    }
-
-
     template <Expression Ex>
     auto constexpr operator - ( Ex const& ex ) noexcept
     {
@@ -841,6 +834,12 @@ namespace ceras
 
 
 
+    template< Expression Ex, arithmetic A >
+    auto constexpr operator / ( A const& lhs_val, Ex const& ex ) noexcept
+    {
+        return inverse( ex ) * lhs_val;
+    }
+
     ///
     /// @brief Multiply two input operators, elementwise.
     /// @code{.cpp}
-- 
2.43.0


From ab1446eb8c66ab8726a61e5480833fe0441152e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:21 +0000
Subject: [PATCH 53/57] fix: run(expression) and session::tap did not compile

---
 include/session.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/session.hpp b/include/session.hpp
index 57efeb8..7e8f54d 100644
--- a/include/session.hpp
+++ b/include/session.hpp
@@ -68,7 +68,7 @@ namespace ceras
         // register variables associated to the op to this session
         // usually being called before restoring a session from a file
         template< typename Operation >
-        void tap( Operation& op ) const
+        void tap( Operation& op )
         {
             run( op );
         }
@@ -238,7 +238,7 @@ namespace ceras
     auto run( Operation& op )
     {
         typedef typename Operation::tensor_type tensor_type;
-        auto ss = get_default_session<tensor_type>();
+        auto& ss = get_default_session<tensor_type>();
         return ss.run( op );
     }
 
-- 
2.43.0


From 581b6c4226a6fef7cfc15f95a749e23d9b3b3c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 54/57] fix: poisson truncated the means of its samples to
 integers

---
 include/tensor.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 03fd063..e6eef94 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -861,8 +861,8 @@ namespace ceras
         Tsor ans{ tsor.shape() };
         for ( auto idx : range( ans.size() ) ) // Note: cannot parallel here
         {
-            long const v = static_cast<long>(tsor[idx]);
-            ans[idx] = distribution( random_generator, std::poisson_distribution<long>::param_type(v) );
+            double const mean = static_cast<double>(tsor[idx]); // the mean is real, only the samples are integers
+            ans[idx] = distribution( random_generator, std::poisson_distribution<long>::param_type(mean) );
         }
         return ans;
     }
-- 
2.43.0


From cd6d33c13472504d4900eb0a4381ddb1d4b6b98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:31 +0000
Subject: [PATCH 55/57] fix: variance of a whole tensor is the mean of the
 squared deviations

---
 include/tensor.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index e6eef94..a9fd3b9 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1180,7 +1180,7 @@ namespace ceras
     typename Tsor::value_type var( Tsor const& ts ) noexcept
     {
         auto x = ts - mean(ts);
-        return std::inner_product( x.begin(), x.end(), x.begin(), typename Tsor::value_type{0} );
+        return std::inner_product( x.begin(), x.end(), x.begin(), typename Tsor::value_type{0} ) / ts.size();
     }
 
     template <Tensor Tsor> requires std::floating_point<typename Tsor::value_type>
-- 
2.43.0


From f710df7a129d7e6729650e0877dafd2d95c98586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:27 +0000
Subject: [PATCH 56/57] fix: progress bar in narrow terminals or without a
 terminal

---
 include/utils/tqdm.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/utils/tqdm.hpp b/include/utils/tqdm.hpp
index 00ab065..efc45a0 100644
--- a/include/utils/tqdm.hpp
+++ b/include/utils/tqdm.hpp
@@ -43,8 +43,9 @@ namespace dm_details
         }
         else
         {
-            winsize w;
-            ioctl(0, 0x5413, &w); // 0x5413 is translated from macro 'TIOCGWINSZ'
+            winsize w{};
+            if ( 0 != ioctl(0, 0x5413, &w) || 0 == w.ws_col ) // 0x5413 is translated from macro 'TIOCGWINSZ'
+                return 80; // not a terminal, or a terminal of unknown width
             return w.ws_col;
         }
     }
@@ -194,7 +195,7 @@ namespace tq
         std::ostream* os_{&std::cerr};
 
         //index bar_size_{100};
-        index bar_size_{ dm_details::get_terminal_width()-40 };
+        index bar_size_{ std::max<index>( dm_details::get_terminal_width()-40, 1 ) };
         //index bar_size_{ dm_details::get_terminal_width() };
         index term_cols_{1};
 
-- 
2.43.0


From d1f77dbf2c3e8d7f22097190e6bb579c07652348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:52 +0000
Subject: [PATCH 57/57] fix: operators sharing an action overwrote each other's
 caches

---
 include/operation.hpp          | 49 +++++++++++++++++++++-------------
 include/utils/context_cast.hpp | 44 ++++++++++++++++++++++++++++--
 2 files changed, 73 insertions(+), 20 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index b8bc906..91e1c07 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -66,6 +66,7 @@ namespace ceras
             Serializer serializer_;
             tensor_type input_data_; // shared by all the copies of this operator, as only one of them computes the forward pass
             tensor_type output_data_;
+            operator_contexts contexts_;
         };
         std::shared_ptr<unary_operator_state> state_;
 
@@ -82,6 +83,7 @@ namespace ceras
             if ( output_data.empty() )
             {
                 input_data = op().forward();
+                context_guard guard{ state_->contexts_ };
                 output_data = forward_action()( input_data );
                 sess.update_forward_cache( (*this).id(), output_data );
             }
@@ -91,7 +93,11 @@ namespace ceras
 
         void backward( tensor_type const& grad )
         {
-            auto const& current_gradient = backward_action()( state_->input_data_, state_->output_data_, grad );
+            auto const& current_gradient = [&]
+            {
+                context_guard guard{ state_->contexts_ };
+                return backward_action()( state_->input_data_, state_->output_data_, grad );
+            }();
             op().backward( current_gradient );
         }
 
@@ -160,6 +166,7 @@ namespace ceras
             tensor_type lhs_input_data_; // shared by all the copies of this operator, as only one of them computes the forward pass
             tensor_type rhs_input_data_;
             tensor_type output_data_;
+            operator_contexts contexts_;
         };
         std::shared_ptr<binary_operator_state> state_;
 
@@ -196,6 +203,7 @@ namespace ceras
                 rhs_input_data = rhs_op().forward();
             }
 
+            context_guard guard{ state_->contexts_ };
             output_data = forward_action()( lhs_input_data, rhs_input_data );
             sess.update_forward_cache( (*this).id(), output_data );
             return output_data;
@@ -206,7 +214,11 @@ namespace ceras
         ///
         void backward( tensor_type const& grad )
         {
-            auto const& [current_gradient_lhs, current_gradient_rhs] = backward_action()( state_->lhs_input_data_, state_->rhs_input_data_, state_->output_data_, grad );
+            auto const& [current_gradient_lhs, current_gradient_rhs] = [&]
+            {
+                context_guard guard{ state_->contexts_ };
+                return backward_action()( state_->lhs_input_data_, state_->rhs_input_data_, state_->output_data_, grad );
+            }();
             lhs_op().backward( current_gradient_lhs );
             rhs_op().backward( current_gradient_rhs );
         }
@@ -1532,8 +1544,8 @@ namespace ceras
     {
         if ( col_kernel == (unsigned long)-1 ) col_kernel = row_kernel;
 
-        std::shared_ptr<std::vector<std::uint32_t>> s_index_record = std::make_shared<std::vector<std::uint32_t>>(); // col_img[idx] = img[index_record[idx]]  -- (-1) for zero padding
-        std::shared_ptr<std::vector<unsigned long>> s_index_shape = std::make_shared<std::vector<unsigned long>>(); // the image shape the index record is made for
+        std::shared_ptr<std::any> s_index_record = std::make_shared<std::any>(); // col_img[idx] = img[index_record[idx]]  -- (-1) for zero padding
+        std::shared_ptr<std::any> s_index_shape = std::make_shared<std::any>(); // the image shape the index record is made for
 
         auto img2col_forward = [s_index_record, s_index_shape]<Tensor Tsor>
         (
@@ -1545,7 +1557,7 @@ namespace ceras
         ) noexcept
         {
             typedef typename Tsor::value_type value_type;
-            std::vector<std::uint32_t>& index_record = *s_index_record; //32 bit should be enough for memory address offeset
+            std::vector<std::uint32_t>& index_record = context_cast<std::vector<std::uint32_t>>( s_index_record ); //32 bit should be enough for memory address offeset
 
             std::vector<unsigned long> input_shape = input_img.shape();
             better_assert( input_shape.size() == 4, "Expecting a 4D tensor." );
@@ -1558,9 +1570,10 @@ namespace ceras
 
             output_col_mat.resize( {output_column_matrix_row, output_column_matrix_col} );
 
-            if ( *s_index_shape != input_shape ) // first-run?
+            std::vector<unsigned long>& index_shape = context_cast<std::vector<unsigned long>>( s_index_shape );
+            if ( index_shape != input_shape ) // first-run?
             {
-                *s_index_shape = input_shape;
+                index_shape = input_shape;
                 index_record.resize( output_column_matrix_row * output_column_matrix_col );
 
                 for ( auto bs : range( BS ) )
@@ -1617,7 +1630,7 @@ namespace ceras
             ans.resize( input.shape() );
             std::fill( ans.begin(), ans.end(), value_type{0} );
 
-            std::vector<std::uint32_t>& index_record = *s_index_record; //32 bit should be enough for memory address offeset
+            std::vector<std::uint32_t>& index_record = context_cast<std::vector<std::uint32_t>>( s_index_record ); //32 bit should be enough for memory address offeset
             for ( auto idx : range( grad.size() ) )
             {
                 auto const index = index_record[idx];
@@ -1905,7 +1918,7 @@ namespace ceras
                     if ( learning_phase == 0 ) // defined in 'config.hpp'
                         return input;
 
-                    std::any& mask_ = *mask;
+                    std::any& mask_ = context_instance( mask );
                     // first run, or the batch size has changed, initialize mask
                     if ( !mask_.has_value() || std::any_cast<Tsor&>( mask_ ).shape() != input.shape() )
                     {
@@ -1933,7 +1946,7 @@ namespace ceras
                     if ( learning_phase == 0 ) // defined in 'config.hpp'
                         return grad;
 
-                    Tsor& mask__ = std::any_cast<Tsor&>( *mask );
+                    Tsor& mask__ = context_extract<Tsor>( mask );
 
                     Tsor& ans = context_cast<Tsor>( backward_cache );
                     ans.deep_copy( grad );
@@ -2023,7 +2036,7 @@ namespace ceras
                         std::vector<unsigned long> const& shape = input.shape();
                         auto const[batch_size, row, col, channel] = std::make_tuple(shape[0], shape[1], shape[2], shape[3]);
 
-                        Tsor& mask__ = std::any_cast<Tsor&>( *mask );
+                        Tsor& mask__ = context_extract<Tsor>( mask );
                         view_4d<value_type> tm{ mask__.data(), batch_size, row, col, channel };
 
                         Tsor& ans = context_cast<Tsor>( backward_cache );
@@ -2281,13 +2294,13 @@ namespace ceras
                     if ( learning_phase == 0 ) // defined in 'config.hpp'
                     {
                         // fix for the special case when prediction is executed before the training, typically in a GAN
-                        Tsor& global_average_test = context_cast<Tsor>( global_average_cache );
+                        Tsor& global_average_test = shared_context_cast<Tsor>( global_average_cache );
                         if ( global_average_test.empty() )
                             return input;
 
                         // normal case. i.e., the global_average_cache and global_variance_cache are not empty
-                        Tsor& global_average = context_extract<Tsor>( global_average_cache );
-                        Tsor& global_variance = context_extract<Tsor>( global_variance_cache );
+                        Tsor& global_average = shared_context_cast<Tsor>( global_average_cache );
+                        Tsor& global_variance = shared_context_cast<Tsor>( global_variance_cache );
 
                         Tsor& ans = context_cast<Tsor>( forward_cache, zeros_like( input ) );
                         ans.resize( input.shape() ); // well, the batch sizes for training and for prediction are not necessarily same
@@ -2338,14 +2351,14 @@ namespace ceras
 
                     // update global average and global variance
                     {
-                        if ( context_cast<Tsor>( global_average_cache ).empty() ) // a prediction before the training leaves an empty one
+                        if ( shared_context_cast<Tsor>( global_average_cache ).empty() ) // a prediction before the training leaves an empty one
                             global_average_cache->reset();
-                        Tsor& global_average = context_cast<Tsor>( global_average_cache, zeros_like( average ) );
+                        Tsor& global_average = shared_context_cast<Tsor>( global_average_cache, zeros_like( average ) );
                         // Note: No obvious different is observed between initializing global_variance to zeros and to ones with MNIST example:
                         //       initializing global_variance to zeros, after 10 epochs mnist gives an error of 0.026
                         //       initializing global_variance to ones, after 10 epochs mnist gives an error of 0.028
-                        Tsor& global_variance = context_cast<Tsor>( global_variance_cache, zeros_like( variance ) );
-                        //Tsor& global_variance = context_cast<Tsor>( global_variance_cache, ones_like( variance ) );
+                        Tsor& global_variance = shared_context_cast<Tsor>( global_variance_cache, zeros_like( variance ) );
+                        //Tsor& global_variance = shared_context_cast<Tsor>( global_variance_cache, ones_like( variance ) );
                         for ( auto idx : range( global_average.size() ) )
                         {
                             global_average[idx] = global_average[idx] * momentum + average[idx] * ( 1.0 - momentum );
diff --git a/include/utils/context_cast.hpp b/include/utils/context_cast.hpp
index 62cd853..745ca33 100644
--- a/include/utils/context_cast.hpp
+++ b/include/utils/context_cast.hpp
@@ -7,11 +7,40 @@
 namespace ceras
 {
 
+    ///
+    /// The caches of one operator. An action can be shared by several operators (a model applied several times, a
+    /// functor applied to several expressions), each of which needs caches of its own.
+    ///
+    typedef std::unordered_map<void const*, std::any> operator_contexts;
+
+    ///
+    /// The caches of the operator in action, nullptr if an action is called directly.
+    ///
+    inline operator_contexts*& current_contexts() noexcept
+    {
+        thread_local operator_contexts* contexts = nullptr;
+        return contexts;
+    }
+
+    struct context_guard
+    {
+        operator_contexts* previous_;
+        context_guard( operator_contexts& contexts ) noexcept : previous_{ std::exchange( current_contexts(), &contexts ) } {}
+        ~context_guard() { current_contexts() = previous_; }
+        context_guard( context_guard const& ) = delete;
+        context_guard& operator = ( context_guard const& ) = delete;
+    };
+
+    inline std::any& context_instance( std::shared_ptr<std::any> const& cache )
+    {
+        return current_contexts() ? (*current_contexts())[cache.get()] : *cache;
+    }
+
     template< typename T >
     T& context_cast( std::shared_ptr<std::any> cache, T const& initial=T{} )
     {
         static_assert( std::is_default_constructible_v<T>, "Error: type is not default constructible." );
-        std::any& instance = *cache;
+        std::any& instance = context_instance( cache );
         if ( !instance.has_value() )
             instance = initial;
         return std::any_cast<T&>( instance );
@@ -21,11 +50,22 @@ namespace ceras
     T& context_extract( std::shared_ptr<std::any> cache )
     {
         static_assert( std::is_default_constructible_v<T>, "Error: type is not default constructible." );
-        std::any& instance = *cache;
+        std::any& instance = context_instance( cache );
         better_assert( instance.has_value(), "Error: expecting cache has cached a value, but got an empty instance." );
         return std::any_cast<T&>( instance );
     }
 
+    ///
+    /// A state shared by all the operators with the same action, such as the running averages of a batch normalization.
+    ///
+    template< typename T >
+    T& shared_context_cast( std::shared_ptr<std::any> cache, T const& initial=T{} )
+    {
+        if ( !cache->has_value() )
+            *cache = initial;
+        return std::any_cast<T&>( *cache );
+    }
+
 }//namespace ceras
 
 #endif//SHARED_ANY_CAST_HPP_INCLUDED_AFSDIJLKSDF984ULAFJDLKJADSF98H4JFOIDJOJDJFJ
-- 
2.43.0

