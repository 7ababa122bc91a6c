From d137fbdc880d8e2f9e8c0cb8b38c063ddce99a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 01/69] fix: System::EvalInPlace fell through from FunctionTree
 into SLP evaluation

---
 core/include/bertini2/system/system.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index b19b93d..c5e8aea 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -286,6 +286,7 @@ namespace bertini {
 					for (auto iter=functions_.begin(); iter!=functions_.end(); iter++, counter++) {
 						(*iter)->EvalInPlace<T>(function_values(counter));
 					}
+					break;
 				}
 
 				case EvalMethod::SLP:
-- 
2.43.0


From 370bca315fb81139092f9c019ac7818c68a2376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 02/69] fix: changing a System's evaluation or differentiation
 method left stale derivative structures

---
 core/include/bertini2/system/system.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index c5e8aea..df4a5d5 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -1583,6 +1583,8 @@ namespace bertini {
 		 * */
 		void SetEvalMethod(EvalMethod method)
 		{
+			if (eval_method_ != method)
+				is_differentiated_ = false;
 			eval_method_ = method;
 		}
 
@@ -1602,6 +1604,8 @@ namespace bertini {
 		 * */
 		void SetDerivMethod(DerivMethod method)
 		{
+			if (deriv_method_ != method)
+				is_differentiated_ = false;
 			deriv_method_ = method;
 		}
 
-- 
2.43.0


From a21bab25c2bacad619c768a0484d4b6a13762003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 03/69] fix: copying, moving or swapping a System lost its
 straight line program and differentiation settings

---
 core/src/system/system.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index c5598d9..894fc9b 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -85,6 +85,10 @@ namespace bertini
 
 		swap(a.assume_uniform_precision_,b.assume_uniform_precision_);
 		swap(a.eval_method_,b.eval_method_);
+		swap(a.deriv_method_,b.deriv_method_);
+		swap(a.auto_simplify_,b.auto_simplify_);
+		swap(a.slp_,b.slp_);
+		swap(a.current_variable_values_,b.current_variable_values_);
 
 		swap(a.precision_,b.precision_);
 		swap(a.is_patched_,b.is_patched_);
@@ -113,6 +117,9 @@ namespace bertini
 
 		assume_uniform_precision_ = other.assume_uniform_precision_;
 		eval_method_ = other.eval_method_;
+		deriv_method_ = other.deriv_method_;
+		auto_simplify_ = other.auto_simplify_;
+		slp_ = other.slp_;
 
 		time_order_of_variable_groups_ = other.time_order_of_variable_groups_;
 
-- 
2.43.0


From 14a7fd1992ce30a1845700e28dcd30e34b7ce822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 04/69] fix: System += and *= mutated functions shared with
 other Systems, and kept stale derivatives

---
 core/src/system/system.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 894fc9b..bdff1c0 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1327,8 +1327,9 @@ namespace bertini
 				throw std::runtime_error("System+=System cannot combine two patched systems whose patches differ.");
 
 		for (auto iter=functions_.begin(); iter!=functions_.end(); iter++)
-			(*iter)->SetRoot( (*(rhs.functions_.begin()+(iter-functions_.begin())))->EntryNode() + (*iter)->EntryNode());
+			*iter = Function::Make( (*(rhs.functions_.begin()+(iter-functions_.begin())))->EntryNode() + (*iter)->EntryNode(), (*iter)->name());
 
+		is_differentiated_ = false;
 		return *this;
 	}
 
@@ -1342,8 +1343,10 @@ namespace bertini
 	{
 		for (auto iter=functions_.begin(); iter!=functions_.end(); iter++)
 		{
-			(*iter)->SetRoot( N * (*iter)->EntryNode());
+			*iter = Function::Make( N * (*iter)->EntryNode(), (*iter)->name());
 		}
+
+		is_differentiated_ = false;
 		return *this;
 	}
 
-- 
2.43.0


From fc99a7e410ae36a018b81e132b412fc0cf2980a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 05/69] fix: Concatenate threw when only the second System was
 patched

---
 core/src/system/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index bdff1c0..3bde984 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1378,7 +1378,7 @@ namespace bertini
 				throw std::runtime_error("concatenating systems with incompatible patches");
 
 		if (sys2.IsPatched() && !sys1.IsPatched())
-			sys1.CopyPatches(sys1);
+			sys1.CopyPatches(sys2);
 		// the other cases are automatically covered.  sys1 already patched, or neither patched.
 
 		for (unsigned ii(0); ii<sys2.NumNaturalFunctions(); ++ii)
-- 
2.43.0


From f36b6a446be6cbe1cc1756eca0c50279ae094074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 06/69] fix: reordering functions or replacing variables of a
 System kept stale derivatives and ordering

---
 core/src/system/system.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 3bde984..eb69b74 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -870,6 +870,8 @@ namespace bertini
 
 		variable_ordering_ = other.variable_ordering_; 
 		have_ordering_ = other.have_ordering_;
+
+		is_differentiated_ = false;
 	}
 
 
@@ -1014,6 +1016,7 @@ namespace bertini
 		}
 
 		swap(functions_, re_ordered_functions);
+		is_differentiated_ = false;
 	}
 
 
@@ -1041,6 +1044,7 @@ namespace bertini
 		}
 
 		swap(functions_, re_ordered_functions);
+		is_differentiated_ = false;
 	}
 
 
@@ -1068,6 +1072,10 @@ namespace bertini
 
 		path_variable_.reset();
 		have_path_variable_ = false;
+
+		time_order_of_variable_groups_.clear();
+		have_ordering_ = false;
+		is_differentiated_ = false;
 	}
 
 
-- 
2.43.0


From ad8a658ee35606fdc6a6b68f4c2e664530c4b292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 07/69] fix: DehomogenizePoint used the first group's size for
 every group

---
 core/include/bertini2/system/system.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index df4a5d5..3f88262 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -1705,19 +1705,20 @@ namespace bertini {
 							auto h = x(hom_index++);
 							for (unsigned ii = 0; ii < variable_groups_[affine_group_counter].size(); ++ii)
 								x_dehomogenized(dehom_index++) = x(hom_index++) / h;
-							affine_group_counter++;
 						}
 						else
 						{
 							for (unsigned ii = 0; ii < variable_groups_[affine_group_counter].size(); ++ii)
 								x_dehomogenized(dehom_index++) = x(hom_index++);
 						}
+						affine_group_counter++;
 						break;
 					}
 					case VariableGroupType::Homogeneous:
 					{
 						for (unsigned ii = 0; ii < hom_variable_groups_[hom_group_counter].size(); ++ii)
 							x_dehomogenized(dehom_index++) = x(hom_index++);
+						hom_group_counter++;
 						break;
 					}
 					case VariableGroupType::Ungrouped:
-- 
2.43.0


From 8e282dd2c15692a96ccee588e5b410ff1328ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 08/69] fix: homogenizing a System homogenized shared
 sub-expressions more than once

---
 core/src/system/system.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index eb69b74..d6f0a65 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -477,8 +477,12 @@ namespace bertini
 			{
 				Var hom_var = Variable::Make(converter.str());
 				homogenizing_variables_[group_counter] = hom_var;
+
+				// the homogenizing variable is part of the group, so that a sub-expression shared by several functions is homogenized only once
+				VariableGroup temp_group = *curr_var_gp;
+				PushFront(temp_group, hom_var);
 				for (const auto& curr_function : functions_)
-					curr_function->Homogenize(*curr_var_gp, hom_var);
+					curr_function->Homogenize(temp_group, hom_var);
 			}
 
 			group_counter++;
-- 
2.43.0


From 801419bab29c66f4052644fd5726aeb57c441118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:22 +0000
Subject: [PATCH 09/69] fix: StraightLineProgram returned stale values when
 evaluated in double and multiple precision, or after a precision change

---
 .../bertini2/system/straight_line_program.hpp | 21 ++++++++++++-------
 core/src/system/straight_line_program.cpp     |  5 +++--
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/core/include/bertini2/system/straight_line_program.hpp b/core/include/bertini2/system/straight_line_program.hpp
index a91ff43..04b2633 100644
--- a/core/include/bertini2/system/straight_line_program.hpp
+++ b/core/include/bertini2/system/straight_line_program.hpp
@@ -355,7 +355,7 @@ namespace bertini {
 		 */
 		template<typename NumT>
 		void GetFuncValsInPlace(Vec<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalFunctions<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -379,7 +379,7 @@ namespace bertini {
 
 		template<typename NumT>
 		void GetJacobianInPlace(Mat<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalJacobian<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -405,7 +405,7 @@ namespace bertini {
 
 		template<typename NumT>
 		void GetTimeDerivInPlace(Vec<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalTimeDeriv<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -520,7 +520,7 @@ namespace bertini {
 				//assign  to memory
 				memory[ii + input_locations_.Variables] = variable_values(ii);
 			}
-			is_evaluated_ = false;
+			IsEvaluated<NumT>() = false;
 		}
 
 		/**
@@ -549,7 +549,7 @@ namespace bertini {
 			auto& memory =  std::get<std::vector<ComplexT>>(memory_); // unpack for local reference
 
 			memory[input_locations_.Time] = time;
-			is_evaluated_ = false;
+			IsEvaluated<ComplexT>() = false;
 		}
 
 
@@ -609,7 +609,13 @@ namespace bertini {
 		std::vector<size_t> instructions_; //< The instructions.  The opcodes are  stored as size_t's, as well as the locations of operands and results.
 		std::vector< std::pair<Nd,size_t> > true_values_of_numbers_; //< the size_t is where in memory to downsample to.
 
-		mutable bool is_evaluated_ = false;
+		mutable std::tuple<bool,bool> is_evaluated_{false,false}; //< are the results in memory up to date with the inputs?  one flag for each of the number types (double, multiple), in the order of memory_
+
+		template<typename NumT>
+		bool& IsEvaluated() const{
+			return std::get< std::is_same<NumT,dbl_complex>::value ? 0 : 1 >(is_evaluated_);
+		}
+
 
 
 
@@ -632,7 +638,8 @@ namespace bertini {
 			ar & instructions_;
 			ar & true_values_of_numbers_;
 
-			ar & is_evaluated_;
+			ar & std::get<0>(is_evaluated_);
+			ar & std::get<1>(is_evaluated_);
 		}
 
 	};
diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 176ec8f..1dbb962 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -85,6 +85,7 @@ namespace bertini{
 				Precision(n, new_precision);
 
 			this->precision_ = new_precision;
+			IsEvaluated<mpfr_complex>() = false;
 		}
 
 
@@ -216,7 +217,7 @@ namespace bertini{
 #endif
 
 
-		if (is_evaluated_)
+		if (IsEvaluated<NumT>())
 			return;
 
 		for (int ii = 0; ii<instructions_.size();/*the increment is done at end of loop depending on arity */) {
@@ -308,7 +309,7 @@ namespace bertini{
 			}
 		} // for loop around operations
 
-		is_evaluated_ = true;
+		IsEvaluated<NumT>() = true;
 	}
 
 	template void StraightLineProgram::Eval<dbl_complex>() const;
-- 
2.43.0


From a7795f21e3ea849b1d01450e83bd339370997aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:41 +0000
Subject: [PATCH 10/69] fix: SLP compilation of systems whose functions refer
 to later functions, or contain a function twice

---
 core/src/system/straight_line_program.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 1dbb962..3ac68d7 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -409,8 +409,12 @@ namespace bertini{
 
 		size_t location_this_node;
 		if (this->locations_encountered_nodes_.find(f_as_ptr) == this->locations_encountered_nodes_.end()){
-			location_this_node = next_available_complex_;
-			locations_encountered_nodes_[f_as_ptr] = next_available_complex_++;
+			auto top_level = locations_top_level_functions_and_derivatives_.find(f_as_ptr);
+			if (top_level != locations_top_level_functions_and_derivatives_.end())
+				location_this_node = top_level->second; // its output location was reserved already
+			else
+				location_this_node = next_available_complex_++;
+			locations_encountered_nodes_[f_as_ptr] = location_this_node;
 		}
 		else
 			location_this_node = locations_encountered_nodes_[f_as_ptr];
@@ -773,8 +777,8 @@ namespace bertini{
 		slp_under_construction_.output_locations_.Functions = next_available_complex_;
 		for (auto f: sys.GetNaturalFunctions())
 		{
-			locations_top_level_functions_and_derivatives_[f] = next_available_complex_; // don't increment yet, we're listing it a few places. this is for an optimization that elides a copy for assignment.
-			locations_encountered_nodes_[f] = next_available_complex_++;
+			// reserve the output location.  it is not registered as encountered until the function is visited, because functions may refer to functions which come later in the system.
+			locations_top_level_functions_and_derivatives_[f] = next_available_complex_++;
 
 			#ifndef BERTINI_DISABLE_FUNCTION_TREE_SANITY_CHECKS
 						try{
@@ -826,13 +830,19 @@ namespace bertini{
 
 		// now we're actually ready to start visiting using recursion, since we've recorded the locations of inputs and outputs.
 		
+		size_t output_location = slp_under_construction_.output_locations_.Functions;
 		for (auto& f: sys.GetNaturalFunctions())
 		{
 			f->shared_from_this();
-			f->Accept(*this);
+			if (locations_encountered_nodes_.find(f) == locations_encountered_nodes_.end())
+				f->Accept(*this);
 
 			// post visit function
-			/* code */
+
+			// the same function may appear in the system more than once
+			if (locations_encountered_nodes_[f] != output_location)
+				slp_under_construction_.AddInstruction(Assign, locations_encountered_nodes_[f], output_location);
+			++output_location;
 		}
 
 
-- 
2.43.0


From ae69f0089afd664660adf6179636a300fc331e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:59 +0000
Subject: [PATCH 11/69] fix: serializing a System differentiated with Jacobian
 nodes threw, because Differential's serialization was not hooked up

---
 .../function_tree/symbols/differential.hpp      | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/differential.hpp b/core/include/bertini2/function_tree/symbols/differential.hpp
index 1406f27..2c278fb 100644
--- a/core/include/bertini2/function_tree/symbols/differential.hpp
+++ b/core/include/bertini2/function_tree/symbols/differential.hpp
@@ -147,21 +147,14 @@ namespace node{
 		friend class boost::serialization::access;
 		
 		template<class Archive>
-		void save(Archive & ar, const unsigned int version) const
+		void serialize(Archive & ar, const unsigned int version)
 		{
 			ar & boost::serialization::base_object<NamedSymbol>(*this);
-			ar & differential_variable_;
-			// ar & const_cast<std::shared_ptr<const Variable> >(differential_variable_);
-		}
-		
-		template<class Archive>
-		void load(Archive & ar, const unsigned int version)
-		{
-			ar & boost::serialization::base_object<NamedSymbol>(*this);
-			ar & std::const_pointer_cast<Variable>(differential_variable_);
+
+			auto v = std::const_pointer_cast<Variable>(differential_variable_);
+			ar & v;
+			differential_variable_ = v;
 		}
-		
-		// BOOST_SERIALIZATION_SPLIT_MEMBER()
 
 	};
 
-- 
2.43.0


From fb4603ff92f2f25979b7aa8a598e8fe02572df16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:25 +0000
Subject: [PATCH 12/69] fix: LogOperator was not exported for serialization

---
 core/include/bertini2/function_tree.hpp | 1 +
 core/src/function_tree/node.cpp         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/core/include/bertini2/function_tree.hpp b/core/include/bertini2/function_tree.hpp
index 320ef12..c0067f7 100644
--- a/core/include/bertini2/function_tree.hpp
+++ b/core/include/bertini2/function_tree.hpp
@@ -101,6 +101,7 @@ BOOST_CLASS_EXPORT_KEY(bertini::node::PowerOperator)
 BOOST_CLASS_EXPORT_KEY(bertini::node::IntegerPowerOperator)
 BOOST_CLASS_EXPORT_KEY(bertini::node::SqrtOperator)
 BOOST_CLASS_EXPORT_KEY(bertini::node::ExpOperator)
+BOOST_CLASS_EXPORT_KEY(bertini::node::LogOperator)
 
 
 
diff --git a/core/src/function_tree/node.cpp b/core/src/function_tree/node.cpp
index 3542635..6540e61 100644
--- a/core/src/function_tree/node.cpp
+++ b/core/src/function_tree/node.cpp
@@ -54,6 +54,7 @@ BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::PowerOperator)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::IntegerPowerOperator)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::SqrtOperator)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::ExpOperator)
+BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::LogOperator)
 
 
 
-- 
2.43.0


From 385c27e994ae765ca9ed69c75b7ba04352ae8243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:10 +0000
Subject: [PATCH 13/69] fix: evaluating a System at a new point left stale
 stored values of its other quantities (functions, Jacobian, time derivative)
 in FunctionTree mode

---
 core/include/bertini2/system/system.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index 3f88262..2d85ad1 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -351,7 +351,7 @@ namespace bertini {
 				throw std::runtime_error("not using a time value for evaluation of system, but path variable IS defined.");
 			
 			SetVariables(variable_values.eval());
-			ResetFunctions();
+			Reset();
 			EvalInPlace(function_values);
 		}
 		
@@ -415,7 +415,7 @@ namespace bertini {
 			SetVariables(variable_values.eval());//TODO: remove this eval
 			SetPathVariable(path_variable_value);
 
-			ResetFunctions(); // todo, elimiante this.  i feel like setting the variables or path variable should be enough to set the flag/ take the action
+			Reset(); // todo, elimiante this.  i feel like setting the variables or path variable should be enough to set the flag/ take the action
 
 			EvalInPlace(function_values);
 		}
@@ -618,7 +618,7 @@ namespace bertini {
 			
 			SetVariables(variable_values.eval()); // TODO: remove this eval
 			SetPathVariable(path_variable_value);
-			ResetJacobian();
+			Reset();
 			JacobianInPlace(J);
 		}
 
@@ -686,7 +686,7 @@ namespace bertini {
 
 			SetVariables(variable_values.eval()); //TODO: remove this eval()
 			SetPathVariable(path_variable_value);
-			ResetTimeDerivatives();
+			Reset();
 			TimeDerivativeInPlace(ds_dt);
 		}
 
@@ -727,7 +727,7 @@ namespace bertini {
 			static_assert(std::is_same<typename Derived::Scalar, T>::value, "scalar types must be the same");
 
 			SetVariables(variable_values.eval()); //TODO: remove this eval()
-			ResetTimeDerivatives();
+			Reset();
 			TimeDerivativeInPlace(ds_dt);
 		}
 
-- 
2.43.0


From 0bc04a063786c636ba46111c4a8728fe9b20949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:10 +0000
Subject: [PATCH 14/69] fix: System::SimplifyFunctions removed variables which
 happened to have the value 0 or 1

---
 core/src/system/system.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index d6f0a65..63dc716 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1087,8 +1087,37 @@ namespace bertini
 	void System::SimplifyFunctions()
 	{
 		using bertini::Simplify;
+
+		// simplification decides what is zero or one from values, so these must be generic, not those at which the system happens to have been evaluated last.
+		auto num_vars = this->NumVariables();
+		std::vector<dbl> old_vals(num_vars);  dbl old_path_var_val;
+
+		auto vars = this->Variables();
+		for (unsigned ii=0; ii<num_vars; ++ii)
+		{
+			old_vals[ii] = vars[ii]->Eval<dbl>();
+			vars[ii]->SetToRandUnit<dbl>();
+		}
+
+		if (HavePathVariable())
+		{
+			old_path_var_val = path_variable_->Eval<dbl>();
+			path_variable_->SetToRandUnit<dbl>();
+		}
+
+		for (const auto& n : functions_)
+			n->Reset();
+
 		for (auto& iter : this->functions_)
 			Simplify(iter);
+
+		for (unsigned ii=0; ii<num_vars; ++ii)
+			vars[ii]->set_current_value<dbl>(old_vals[ii]);
+		if (HavePathVariable())
+			path_variable_->set_current_value(old_path_var_val);
+
+		for (const auto& n : functions_)
+			n->Reset();
 	}
 
 
-- 
2.43.0


From 5a9bc5007d92d92a3b2f2232a514cfbc177d9844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:32 +0000
Subject: [PATCH 15/69] fix: a System whose patch was dropped by a change of
 its variables still counted the patch's equations

---
 core/include/bertini2/system/system.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index 2d85ad1..19ab4f8 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -872,7 +872,7 @@ namespace bertini {
 		*/
 		size_t NumPatches() const
 		{
-			return patch_.NumVariableGroups();
+			return is_patched_ ? patch_.NumVariableGroups() : 0;
 		}
 
 		/**
-- 
2.43.0


From 66886fbd365fedf2ebccbd28aef7722a3a2932bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:32 +0000
Subject: [PATCH 16/69] fix: System += compared counts including patches,
 refusing patched + unpatched and reading past the end of shorter Systems

---
 core/src/system/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 63dc716..95468cf 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1342,7 +1342,7 @@ namespace bertini
 
 	System& System::operator+=(System const& rhs)
 	{
-		if (this->NumTotalFunctions()!=rhs.NumTotalFunctions())
+		if (this->NumNaturalFunctions()!=rhs.NumNaturalFunctions())
 			throw std::runtime_error("cannot add two Systems with differing numbers of functions");
 
 		if (this->NumVariables()!=rhs.NumVariables())
-- 
2.43.0


From a0cb9e8adeaaafe634f3e1f71cbd76bb2d46ca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:39 +0000
Subject: [PATCH 17/69] fix: time derivatives of a System using JacobianNode
 differentiation and straight line program evaluation were zero

---
 core/src/system/straight_line_program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 3ac68d7..a6ad777 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -812,9 +812,10 @@ namespace bertini{
 
 
 		// sometimes have time derivatives
+		decltype(sys.GetTimeDerivatives()) ds_dt; // got once, because getting them may differentiate again, making new nodes
 		if (sys.HavePathVariable()) {
 			
-			auto ds_dt = sys.GetTimeDerivatives();  // a linear object, so can just run down the object
+			ds_dt = sys.GetTimeDerivatives();  // a linear object, so can just run down the object
 			slp_under_construction_.number_of_.TimeDeriv = ds_dt.size();
 			slp_under_construction_.output_locations_.TimeDeriv = next_available_complex_; // note the start of the block in memory.  the size was also recorded in the previous line.
 			for (auto n: ds_dt)
@@ -859,7 +860,6 @@ namespace bertini{
 		if (sys.HavePathVariable()) {
 			
 			// we need derivatives with respect to time only if the system has a path variable defined
-			auto ds_dt = sys.GetTimeDerivatives();  // a linear object, so can just run down the object
 			for (auto n: ds_dt)
 				n->Accept(*this);
 		}
-- 
2.43.0


From f8e67d7e99c1cd3a9863bd2b56c5d3f3e9b4c88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:39 +0000
Subject: [PATCH 18/69] fix: the Jacobian of a System patched in several groups
 had uninitialized entries

---
 core/include/bertini2/system/patch.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/include/bertini2/system/patch.hpp b/core/include/bertini2/system/patch.hpp
index a98fb82..32d7210 100644
--- a/core/include/bertini2/system/patch.hpp
+++ b/core/include/bertini2/system/patch.hpp
@@ -371,8 +371,12 @@ namespace bertini {
 			unsigned offset(jacobian.rows() - NumVariableGroups()); // by precondition this number is at least 0.  the precondition is ensured by the public wrapper
 			unsigned counter(0);
 			for (unsigned ii = 0; ii < NumVariableGroups(); ++ii)
+			{
+				for (unsigned jj=0; jj<jacobian.cols(); ++jj)
+					jacobian(ii+offset,jj) = T(0); // a patch equation involves only the variables of its own group
 				for (unsigned jj=0; jj<variable_group_sizes_[ii]; ++jj)
 					jacobian(ii+offset,counter++) = coefficients[ii](jj);
+			}
 		}
 
 		/**
-- 
2.43.0


From 42d3c896ae00212eadbfc3ce75aec9a415d4495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:59 +0000
Subject: [PATCH 19/69] fix: the derivative of a power ignored that the
 exponent may depend on the variable

---
 core/src/function_tree/operators/arithmetic.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index 0fde38a..2a141cb 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -958,7 +958,14 @@ std::shared_ptr<Node> PowerOperator::Differentiate(std::shared_ptr<Variable> con
 	auto ret_mult = MultOperator::Make(base_->Differentiate(v));
 	ret_mult->AddOperand(exponent_);
 	ret_mult->AddOperand(PowerOperator::Make(base_, exp_minus_one));
-	return ret_mult;
+
+	if (exponent_->Degree(v)==0) // the exponent does not move
+		return ret_mult;
+
+	auto exponent_part = MultOperator::Make(exponent_->Differentiate(v));
+	exponent_part->AddOperand(LogOperator::Make(base_));
+	exponent_part->AddOperand(PowerOperator::Make(base_, exponent_));
+	return SumOperator::Make(ret_mult, exponent_part);
 }
 
 
-- 
2.43.0


From 20abb5490793dc0c56100ded25e4bee17e6e207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:59 +0000
Subject: [PATCH 20/69] fix: degrees in a group of variables were sums of
 per-variable degrees for powers, negation and multidegrees of products and
 sums

---
 .../function_tree/operators/arithmetic.hpp    |  5 ++
 .../function_tree/operators/arithmetic.cpp    | 53 ++++++++++++++-----
 core/src/function_tree/operators/operator.cpp | 19 +++----
 3 files changed, 54 insertions(+), 23 deletions(-)

diff --git a/core/include/bertini2/function_tree/operators/arithmetic.hpp b/core/include/bertini2/function_tree/operators/arithmetic.hpp
index 379982d..79fac7b 100644
--- a/core/include/bertini2/function_tree/operators/arithmetic.hpp
+++ b/core/include/bertini2/function_tree/operators/arithmetic.hpp
@@ -727,6 +727,11 @@ namespace node{
 		 Compute the degree of a node.  For integer power functions, the degree is the product of the degree of the argument, and the power.
 		 */
 		int Degree(std::shared_ptr<Variable> const& v = nullptr) const override;
+
+		/**
+		 Compute the degree with respect to a variable group.
+		 */
+		int Degree(VariableGroup const& vars) const override;
 		
 		
 		bool IsHomogeneous(std::shared_ptr<Variable> const& v = nullptr) const override
diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index 2a141cb..f716922 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -255,7 +255,11 @@ std::vector<int> SumOperator::MultiDegree(VariableGroup const& vars) const
 
 		for (auto iter = term_deg.begin(); iter!= term_deg.end(); ++iter)
 		{
-			*(deg.begin()+(iter-term_deg.begin())) = std::max(*(deg.begin()+(iter-term_deg.begin())), *iter);
+			auto& d = *(deg.begin()+(iter-term_deg.begin()));
+			if (*iter<0)
+				d = *iter;
+			else if (d>=0)
+				d = std::max(d, *iter);
 		}
 	}
 	return deg;
@@ -815,13 +819,19 @@ int MultOperator::Degree(VariableGroup const& vars) const
 std::vector<int> MultOperator::MultiDegree(VariableGroup const& vars) const
 {
 	std::vector<int> deg(vars.size(),0);
-	for (auto iter : operands_)
+	for (unsigned ii=0; ii<operands_.size(); ++ii)
 	{
-		auto term_deg = iter->MultiDegree(vars);
+		auto term_deg = operands_[ii]->MultiDegree(vars);
 
 		for (auto iter = term_deg.begin(); iter!= term_deg.end(); ++iter)
 		{
-			*(deg.begin()+(iter-term_deg.begin())) += *iter;
+			auto& d = *(deg.begin()+(iter-term_deg.begin()));
+			if (*iter<0)
+				d = *iter;
+			else if (*iter!=0 && !mult_or_div_[ii])
+				d = -1;
+			else if (d>=0)
+				d += *iter;
 		}
 	}
 	return deg;
@@ -989,7 +999,7 @@ int PowerOperator::Degree(std::shared_ptr<Variable> const& v) const
 			if (abs(exp_val-dbl(0.0))< 10*std::numeric_limits<double>::epsilon())
 				return 0;
 			else if (real(exp_val)<0)
-				return -1;
+				return base_deg==0 ? 0 : -1;
 			else  // positive integer.
 			{
 				if (base_deg<0)
@@ -1017,15 +1027,20 @@ int PowerOperator::Degree(std::shared_ptr<Variable> const& v) const
 
 int PowerOperator::Degree(VariableGroup const& vars) const
 {
-	auto multideg = MultiDegree(vars);
-	auto deg = 0;
-	std::for_each(multideg.begin(),multideg.end(),[&](int n){
-					if (n < 0)
-						deg = -1;
-					else
-						deg += n;
-					});
-	return deg;
+	bool involved = false;
+	for (auto n : MultiDegree(vars))
+	{
+		if (n < 0)
+			return -1;
+		else if (n > 0)
+			involved = true;
+	}
+
+	if (!involved)
+		return 0;
+
+	// polynomial in, and involving, the variables.  so the exponent is a positive integer
+	return base_->Degree(vars)*std::round(real(exponent_->Eval<dbl>()));
 }
 
 
@@ -1181,6 +1196,16 @@ int IntegerPowerOperator::Degree(std::shared_ptr<Variable> const& v) const
 }
 
 
+int IntegerPowerOperator::Degree(VariableGroup const& vars) const
+{
+	auto base_deg = operand_->Degree(vars);
+	if (base_deg<0)
+		return base_deg;
+	else
+		return exponent_*base_deg;
+}
+
+
 
 
 
diff --git a/core/src/function_tree/operators/operator.cpp b/core/src/function_tree/operators/operator.cpp
index 1d49782..84dc22e 100644
--- a/core/src/function_tree/operators/operator.cpp
+++ b/core/src/function_tree/operators/operator.cpp
@@ -60,15 +60,16 @@ int UnaryOperator::Degree(std::shared_ptr<Variable> const& v) const
 
 int UnaryOperator::Degree(VariableGroup const& vars) const
 {
-	auto multideg = MultiDegree(vars);
-	auto deg = 0;
-	std::for_each(multideg.begin(),multideg.end(),[&](int n){
-					if (n < 0)
-						deg = n;
-					else
-						deg += n;
-					});
-	return deg;
+	// the operator may be non-polynomial in some of the variables, or not involve them at all
+	bool involved = false;
+	for (auto n : MultiDegree(vars))
+	{
+		if (n < 0)
+			return n;
+		else if (n > 0)
+			involved = true;
+	}
+	return involved ? operand_->Degree(vars) : 0;
 }
 
 std::vector<int> UnaryOperator::MultiDegree(VariableGroup const& vars) const
-- 
2.43.0


From 3a06e04c9d866949396ac94b153dc2a4967517a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:59 +0000
Subject: [PATCH 21/69] fix: a power not involving the variables at all was
 reported as inhomogeneous in them

---
 core/src/function_tree/operators/arithmetic.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index f716922..f932102 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -1070,6 +1070,9 @@ void PowerOperator::Homogenize(VariableGroup const& vars, std::shared_ptr<Variab
 
 bool PowerOperator::IsHomogeneous(std::shared_ptr<Variable> const& v) const
 {
+	if (Degree(v)==0) // does not involve the variables
+		return true;
+
 	// the only hope this has of being homogeneous, is that the degree of the exponent is 0 (it's constant), and that it's an integer
 	if (exponent_->Degree(v)==0)
 	{
@@ -1085,6 +1088,9 @@ bool PowerOperator::IsHomogeneous(std::shared_ptr<Variable> const& v) const
 
 bool PowerOperator::IsHomogeneous(VariableGroup const& v) const
 {
+	if (Degree(v)==0) // does not involve the variables
+		return true;
+
 	// the only hope this has of being homogeneous, is that the degree of the exponent is 0 (it's constant), and that it's an integer
 	if (exponent_->Degree(v)==0)
 	{
-- 
2.43.0


From 2c947969cd9f087823127b118310e3d16cb06b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:58 +0000
Subject: [PATCH 22/69] fix: a System evaluated where its straight line program
 holds nan or infinity could not be read back from a text archive

---
 .../bertini2/system/straight_line_program.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/core/include/bertini2/system/straight_line_program.hpp b/core/include/bertini2/system/straight_line_program.hpp
index 04b2633..fae9c2e 100644
--- a/core/include/bertini2/system/straight_line_program.hpp
+++ b/core/include/bertini2/system/straight_line_program.hpp
@@ -631,15 +631,26 @@ namespace bertini {
 			ar & output_locations_;
 			ar & input_locations_;
 
-			ar & std::get<std::vector<dbl_complex>>(memory_);
-			ar & std::get<std::vector<mpfr_complex>>(memory_);
+			// the contents of the memory are all computed, from the numbers and the point of evaluation, so only its size is archived.
+			// they may be nan or infinite, which text archives can write but not read.
+			size_t memory_size = std::get<std::vector<dbl_complex>>(memory_).size();
+			ar & memory_size;
 			ar & integers_;
 			
 			ar & instructions_;
 			ar & true_values_of_numbers_;
 
-			ar & std::get<0>(is_evaluated_);
-			ar & std::get<1>(is_evaluated_);
+			if (Archive::is_loading::value)
+			{
+				std::get<std::vector<dbl_complex>>(memory_).assign(memory_size, dbl_complex(0));
+				std::get<std::vector<mpfr_complex>>(memory_).assign(memory_size, mpfr_complex(0));
+				for (auto& m : std::get<std::vector<mpfr_complex>>(memory_))
+					Precision(m, precision_);
+
+				CopyNumbersIntoMemory<dbl_complex>();
+				CopyNumbersIntoMemory<mpfr_complex>();
+				is_evaluated_ = std::make_tuple(false,false);
+			}
 		}
 
 	};
-- 
2.43.0


From 5913e7be9d08c6c26d19beeff7703f9083fa429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:56 +0000
Subject: [PATCH 23/69] fix: generating a start point of an MHomogeneous start
 system read past the end of a first variable group of size one

---
 core/src/system/start/mhom.cpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/core/src/system/start/mhom.cpp b/core/src/system/start/mhom.cpp
index e237a43..241fc82 100644
--- a/core/src/system/start/mhom.cpp
+++ b/core/src/system/start/mhom.cpp
@@ -404,16 +404,6 @@ namespace bertini
 			}
 			
 			start_point = A.partialPivLu().solve(b);
-			
-			
-			var_groups_[0][0]->set_current_value(start_point(0));
-			var_groups_[0][1]->set_current_value(start_point(1));
-			
-			std::shared_ptr<node::Node> f = Function(0);
-			// !!! superfluous line?
-			
-			
-
 		}
 		
 		
-- 
2.43.0


From bcf5f6e3f613fed4244dbcf1f23e1eada42af1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:56 +0000
Subject: [PATCH 24/69] fix: multiplying a TotalDegree or MHomogeneous start
 system by a node recursed infinitely

---
 core/src/system/start/mhom.cpp         | 2 +-
 core/src/system/start/total_degree.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/system/start/mhom.cpp b/core/src/system/start/mhom.cpp
index 241fc82..f51bd2f 100644
--- a/core/src/system/start/mhom.cpp
+++ b/core/src/system/start/mhom.cpp
@@ -101,7 +101,7 @@ namespace bertini
 		
 		MHomogeneous& MHomogeneous::operator*=(Nd const& n)
 		{
-			*this *= n;
+			System::operator*=(n);
 			return *this;
 		}
 		
diff --git a/core/src/system/start/total_degree.cpp b/core/src/system/start/total_degree.cpp
index 04d7f48..ddda8cc 100644
--- a/core/src/system/start/total_degree.cpp
+++ b/core/src/system/start/total_degree.cpp
@@ -52,7 +52,7 @@ namespace bertini {
 		
 		TotalDegree& TotalDegree::operator*=(Nd const& n)
 		{
-			*this *= n;
+			System::operator*=(n);
 			return *this;
 		}
 		
-- 
2.43.0


From 9e3056319aeae03bb06b1cacf5c7e7e7e8024b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:21 +0000
Subject: [PATCH 25/69] fix: changing the precision of a LinearProduct did not
 change its coefficients, and read missing rational coefficients

---
 .../function_tree/symbols/linear_product.hpp  | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index 43a0721..0fa6beb 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -568,7 +568,7 @@ namespace  bertini {
 			
 			Mat<mpq_rational> coeffs_rat_imag_;   ///< Same as coeffs_rat_real_ but for imaginary portion of the coefficients.
 			
-			std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
+			mutable std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
 			
 			VariableGroup variables_; ///< Variables to be used in each linear factor.  Does not have to correspond directly to a variable group from the system.
 			
@@ -740,14 +740,17 @@ namespace  bertini {
 					v.precision(prec);
 				}
 				
-				Mat<mpfr_complex> coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
+				Mat<mpfr_complex>& coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
 				for(int ii = 0; ii < coeffs_ref.rows(); ++ii)
 				{
 					for(int jj = 0; jj < coeffs_ref.cols(); ++jj)
 					{
 						coeffs_ref(ii,jj).precision(prec);
-						coeffs_ref(ii,jj).real( static_cast<mpfr_float>(coeffs_rat_real_(ii,jj)) );
-						coeffs_ref(ii,jj).imag( static_cast<mpfr_float>(coeffs_rat_imag_(ii,jj)) );
+						if(is_rational_coeffs_)
+						{
+							coeffs_ref(ii,jj).real( mpfr_float(coeffs_rat_real_(ii,jj), prec) );
+							coeffs_ref(ii,jj).imag( mpfr_float(coeffs_rat_imag_(ii,jj), prec) );
+						}
 					}
 				}
 			}
@@ -1068,7 +1071,7 @@ namespace  bertini {
 			
 			Mat<mpq_rational> coeffs_rat_imag_;   ///< Same as coeffs_rat_real_ but for imaginary portion of the coefficients.
 			
-			std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
+			mutable std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
 			
 			VariableGroup variables_; ///< Differentials of variables used in the linear.
 			
@@ -1101,12 +1104,17 @@ namespace  bertini {
 			
 			void PrecisionChangeSpecific(unsigned prec) const
 			{
-				Mat<mpfr_complex> coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
+				Mat<mpfr_complex>& coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
 				for(int ii = 0; ii < coeffs_ref.rows(); ++ii)
 				{
 					for(int jj = 0; jj < coeffs_ref.cols(); ++jj)
 					{
 						coeffs_ref(ii,jj).precision(prec);
+						if(coeffs_rat_real_.size() > 0)
+						{
+							coeffs_ref(ii,jj).real( mpfr_float(coeffs_rat_real_(ii,jj), prec) );
+							coeffs_ref(ii,jj).imag( mpfr_float(coeffs_rat_imag_(ii,jj), prec) );
+						}
 					}
 				}
 			}
-- 
2.43.0


From a189bd7c452dad7b88ab21144f867425b771708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:42 +0000
Subject: [PATCH 26/69] fix: the derivative of a LinearProduct with respect to
 a variable was its total differential, and wrong for its homogenizing
 variable

---
 .../function_tree/symbols/linear_product.hpp  | 14 ++++++-
 core/src/function_tree/linear_product.cpp     | 37 +++++++++++++++++++
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index 0fa6beb..1155a8d 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -700,6 +700,16 @@ namespace  bertini {
 			
             std::shared_ptr<LinearProduct> GetLinears(std::vector<size_t> indices) const;
 
+			/**
+			 \brief The derivative with respect to one variable, as opposed to the total differential.
+			 */
+			std::shared_ptr<Node> DifferentiateWithRespectTo(std::shared_ptr<Variable> const& v) const;
+
+			/**
+			 \brief A node holding a coefficient, exactly if the coefficients are rational.
+			 */
+			std::shared_ptr<Node> CoefficientNode(size_t row, size_t col) const;
+
 			
 			
 			void SetupVariables(size_t num_factors, VariableGroup const& variables)
@@ -988,7 +998,7 @@ namespace  bertini {
 				if(diff_variable == hom_variable_)
 				{
 					auto& coeff_ref = std::get<Mat<dbl>>(coeffs_);
-					evaluation_value = coeff_ref(0,variables_.size()-1);
+					evaluation_value = coeff_ref(0,variables_.size());
 					return;
 				}
 				
@@ -1035,7 +1045,7 @@ namespace  bertini {
 				if(diff_variable == hom_variable_)
 				{
 					auto& coeff_ref = std::get<Mat<mpfr_complex>>(coeffs_);
-					evaluation_value = coeff_ref(0,variables_.size()-1);
+					evaluation_value = coeff_ref(0,variables_.size());
 					return;
 				}
 				
diff --git a/core/src/function_tree/linear_product.cpp b/core/src/function_tree/linear_product.cpp
index 233a208..dfc8fc9 100644
--- a/core/src/function_tree/linear_product.cpp
+++ b/core/src/function_tree/linear_product.cpp
@@ -59,6 +59,9 @@ namespace  bertini {
 		
 		std::shared_ptr<Node> LinearProduct::Differentiate(std::shared_ptr<Variable> const& v) const
 		{
+			if (v!=nullptr)
+				return DifferentiateWithRespectTo(v);
+
 			std::shared_ptr<SumOperator> ret_sum;
 			std::vector<size_t> indices;  //Those factors that are not differentiated in one particular term of the differentiated result.
             
@@ -99,6 +102,40 @@ namespace  bertini {
 		
 		
 		
+		std::shared_ptr<Node> LinearProduct::CoefficientNode(size_t row, size_t col) const
+		{
+			if (is_rational_coeffs_)
+				return Rational::Make(coeffs_rat_real_(row,col), coeffs_rat_imag_(row,col));
+			else
+				return Float::Make(std::get<Mat<mpfr_complex>>(coeffs_)(row,col));
+		}
+
+
+		std::shared_ptr<Node> LinearProduct::DifferentiateWithRespectTo(std::shared_ptr<Variable> const& v) const
+		{
+			// which column of the coefficients belongs to v?
+			size_t col = std::find(variables_.begin(), variables_.end(), v) - variables_.begin();
+			if (col==num_variables_ && hom_variable_!=v)
+				return Integer::Make(0);
+
+			auto ret_sum = SumOperator::Make(Integer::Make(0), true);
+			for (size_t ii = 0; ii < num_factors_; ++ii)
+			{
+				auto term = MultOperator::Make(CoefficientNode(ii,col));
+
+				std::vector<size_t> indices; // the factors not differentiated in this term
+				for (size_t jj = 0; jj < num_factors_; ++jj)
+					if (ii != jj)
+						indices.push_back(jj);
+				if (indices.size() > 0)
+					term *= GetLinears(indices);
+
+				ret_sum->AddOperand(term, true);
+			}
+			return ret_sum;
+		}
+
+
 		int LinearProduct::Degree(std::shared_ptr<Variable> const& v) const
 		{
 			int deg = 0;
-- 
2.43.0


From 04053f6cd5ee42b230b1f292b5ff3303aa4b2d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:18 +0000
Subject: [PATCH 27/69] fix: straight line programs could not be compiled for
 LinearProducts, so MHomogeneous start systems could not be evaluated by
 default

---
 .../function_tree/symbols/linear_product.hpp  |  5 +++++
 .../bertini2/system/straight_line_program.hpp |  6 +++--
 core/src/function_tree/linear_product.cpp     | 22 +++++++++++++++++++
 core/src/system/straight_line_program.cpp     |  7 ++++++
 4 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index 1155a8d..058af3d 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -390,6 +390,11 @@ namespace  bertini {
 				coeffs = coeffs_mpfr_ref;
 			}
 			
+			/**
+			 \brief The same product, written out with sums and products of numbers and variables.
+			*/
+			std::shared_ptr<Node> AsProductOfSums() const;
+
 			/**
 			 \brief Are there rational coefficients?
 			*/
diff --git a/core/include/bertini2/system/straight_line_program.hpp b/core/include/bertini2/system/straight_line_program.hpp
index fae9c2e..4363bb6 100644
--- a/core/include/bertini2/system/straight_line_program.hpp
+++ b/core/include/bertini2/system/straight_line_program.hpp
@@ -669,6 +669,7 @@ namespace bertini {
 			public Visitor<node::Function>,
 			public Visitor<node::Jacobian>,
 			public Visitor<node::Differential>,
+			public Visitor<node::LinearProduct>,
 
 			// arithmetic
 			public Visitor<node::SumOperator>,
@@ -691,7 +692,7 @@ namespace bertini {
 			public Visitor<node::special_number::Pi>,
 			public Visitor<node::special_number::E>
 
-			// also missing -- linears and difflinears.
+			// also missing -- difflinears.
 
 			// these abstract base types left out,
 
@@ -720,6 +721,7 @@ namespace bertini {
 			virtual void Visit(node::Function const& n);
 			virtual void Visit(node::Jacobian const& n);
 			virtual void Visit(node::Differential const& n);
+			virtual void Visit(node::LinearProduct const& n);
 
 			// arithmetic
 			virtual void Visit(node::SumOperator const& n);
@@ -742,7 +744,7 @@ namespace bertini {
 
 			virtual void Visit(node::special_number::Pi const& n);
 			virtual void Visit(node::special_number::E const& n);
-			// missing -- linear and difflinear
+			// missing -- difflinear
 		private:
 
 
diff --git a/core/src/function_tree/linear_product.cpp b/core/src/function_tree/linear_product.cpp
index dfc8fc9..a1cf113 100644
--- a/core/src/function_tree/linear_product.cpp
+++ b/core/src/function_tree/linear_product.cpp
@@ -111,6 +111,28 @@ namespace  bertini {
 		}
 
 
+		std::shared_ptr<Node> LinearProduct::AsProductOfSums() const
+		{
+			std::shared_ptr<MultOperator> product;
+			for (size_t ii = 0; ii < num_factors_; ++ii)
+			{
+				std::shared_ptr<Node> last = hom_variable_;
+				auto factor = SumOperator::Make(MultOperator::Make(CoefficientNode(ii,num_variables_), last), true);
+				for (size_t jj = 0; jj < num_variables_; ++jj)
+				{
+					std::shared_ptr<Node> var = variables_[jj];
+					factor->AddOperand(MultOperator::Make(CoefficientNode(ii,jj), var), true);
+				}
+
+				if (product)
+					product->AddOperand(factor, true);
+				else
+					product = MultOperator::Make(std::shared_ptr<Node>(factor));
+			}
+			return product;
+		}
+
+
 		std::shared_ptr<Node> LinearProduct::DifferentiateWithRespectTo(std::shared_ptr<Variable> const& v) const
 		{
 			// which column of the coefficients belongs to v?
diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index a6ad777..6cd2d7c 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -392,6 +392,13 @@ namespace bertini{
 		throw std::runtime_error("unimplemented visit to node of type Differential");
 	}
 
+	void SLPCompiler::Visit(node::LinearProduct const& n){
+		auto as_ptr = std::dynamic_pointer_cast<node::LinearProduct const>(n.shared_from_this());
+		std::shared_ptr<node::Node> expanded = n.AsProductOfSums();
+		expanded->Accept(*this);
+		this->locations_encountered_nodes_[as_ptr] = locations_encountered_nodes_[expanded];
+	}
+
 
 
 
-- 
2.43.0


From 7f882b57b1899397c358d7ae980c22d25a75afe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:18 +0000
Subject: [PATCH 28/69] fix: the total degree of a LinearProduct was zero

---
 core/src/function_tree/linear_product.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/function_tree/linear_product.cpp b/core/src/function_tree/linear_product.cpp
index a1cf113..ef099d3 100644
--- a/core/src/function_tree/linear_product.cpp
+++ b/core/src/function_tree/linear_product.cpp
@@ -162,8 +162,8 @@ namespace  bertini {
 		{
 			int deg = 0;
 			
-			// If v is part of the linear product
-			if(std::find(variables_.begin(), variables_.end(), v) != std::end(variables_))
+			// If v is part of the linear product, or we want the total degree
+			if(v == nullptr || std::find(variables_.begin(), variables_.end(), v) != std::end(variables_))
 			{
 				deg = num_factors_;
 			}
-- 
2.43.0


From ac86aae7a61915cac4ff1ef4fb61a1f4c48d3a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:34 +0000
Subject: [PATCH 29/69] fix: MHomogeneous start systems for homogenized and
 patched targets, or with homogeneous groups, had the wrong number of start
 points, of the wrong size

---
 core/include/bertini2/system/start/mhom.hpp |  1 -
 core/src/system/start/mhom.cpp              | 65 +++++++++++----------
 2 files changed, 35 insertions(+), 31 deletions(-)

diff --git a/core/include/bertini2/system/start/mhom.hpp b/core/include/bertini2/system/start/mhom.hpp
index 7bea77a..d78e98a 100644
--- a/core/include/bertini2/system/start/mhom.hpp
+++ b/core/include/bertini2/system/start/mhom.hpp
@@ -125,7 +125,6 @@ namespace bertini
 			std::vector<unsigned long long> degrees_; ///< stores the degrees of the functions.
 			std::vector< VariableGroup > var_groups_;
 			Mat<std::shared_ptr<node::LinearProduct>> linprod_matrix_; ///< All the linear products for each entry in the degree matrix.
-			std::vector< std::vector<size_t> > variable_cols_; ///< The columns associated with each variable.  The first index is the variable group, the second index is the particular variable in the group.
 
 			mutable Vec<mpfr_complex> temp_v_mp_;
 
diff --git a/core/src/system/start/mhom.cpp b/core/src/system/start/mhom.cpp
index f51bd2f..cdb2620 100644
--- a/core/src/system/start/mhom.cpp
+++ b/core/src/system/start/mhom.cpp
@@ -156,7 +156,6 @@ namespace bertini
 
 			int col_count = 0;
 			int outer_loop = 0;
-			size_t var_count = 0;
 			std::vector<int> zero_column_vector(target_system.Degrees(*(var_groups_.begin())).size(), 0);
 
 			for(std::vector<VariableGroup>::iterator it = var_groups_.begin(); it != var_groups_.end(); ++it)
@@ -164,14 +163,6 @@ namespace bertini
 				outer_loop++;
   				std::vector<int> degs = target_system.Degrees(*it);
 				
-				std::vector<size_t> temp_v;
-				for(int ii = 0; ii < (*it).size(); ++ii)
-				{
-					temp_v.push_back(var_count);
-					var_count++;
-				}
-				variable_cols_.push_back(temp_v);
-				
   				if(degs == zero_column_vector)
   				{
   					//check for zero column in degree matrix.
@@ -225,15 +216,12 @@ namespace bertini
 			Vec<int> current_partition = -1*Vec<int>::Ones(target_system.NumNaturalFunctions());
 			Vec<int> variable_group_counter = Vec<int>::Zero(target_system.NumTotalVariableGroups());
 
-			auto size_of_each_var_gp = target_system.VariableGroupSizes(); //K
-			
-
-
-
-
+			// the dimension of each group, in the order of the columns of the degree matrix: homogeneous groups first.
 			for(int ii = 0; ii < target_system.NumTotalVariableGroups(); ++ii)
 			{
-				variable_group_counter[ii] = size_of_each_var_gp[ii];
+				variable_group_counter[ii] = var_groups_[ii].size();
+				if (ii < target_system.NumHomVariableGroups())
+					--variable_group_counter[ii];
 			}			    
 			// std::cout << "variable_group_counter is " << std::endl;
 			// std::cout << variable_group_counter << std::endl;		
@@ -383,27 +371,44 @@ namespace bertini
 			
 			
 			
-			// Create a linear system to solve.
-			size_t num_grouped_variables = NumNaturalVariables() - NumUngroupedVariables();
-			Mat<T> A(partition.size(), num_grouped_variables);
-			Vec<T> v(num_grouped_variables);
-			Vec<T> b(partition.size());
+			// Create a linear system to solve.  One row per function, and one per projective group to normalize its coordinates.
+			const auto& variables = Variables();
+			auto position = [&variables](std::shared_ptr<Variable> const& v)
+				{ return std::find(variables.begin(), variables.end(), v) - variables.begin(); };
+
+			Mat<T> A = Mat<T>::Zero(NumVariables(), NumVariables());
+			Vec<T> b = Vec<T>::Zero(NumVariables());
 			
 			for(int ii = 0; ii < partition.size(); ++ii)
 			{
-				v.setZero();
-				std::vector<size_t> cols = variable_cols_[partition[ii]];
+				const auto& group = var_groups_[partition[ii]];
 				auto coeff = linprod_matrix_(ii,partition[ii])->GetCoeffs<T>(subscript[ii]);
-				for(int jj = 0; jj < cols.size(); ++jj)
-				{
-					v(cols[jj]) = coeff[jj];
-				}
-				
-				A.row(ii) = v;
-				b(ii) = -coeff[cols.size()];
+				for(int jj = 0; jj < group.size(); ++jj)
+					A(ii, position(group[jj])) = coeff[jj];
+
+				if (partition[ii] >= NumHomVariableGroups() && NumHomVariables() > 0)
+					A(ii, position(group[0])-1) = coeff[group.size()]; // a group's homogenizing variable precedes the group
+				else
+					b(ii) = -coeff[group.size()];
+			}
+
+			int row = partition.size();
+			for (int ii = 0; ii < NumHomVariableGroups(); ++ii, ++row)
+			{
+				for (const auto& v : var_groups_[ii])
+					A(row, position(v)) = T(1);
+				b(row) = T(1);
+			}
+			for (int ii = 0; ii < NumHomVariables(); ++ii, ++row)
+			{
+				A(row, position(var_groups_[NumHomVariableGroups()+ii][0])-1) = T(1);
+				b(row) = T(1);
 			}
 			
 			start_point = A.partialPivLu().solve(b);
+
+			if (IsPatched())
+				RescalePointToFitPatchInPlace(start_point);
 		}
 		
 		
-- 
2.43.0


From 3b070b762b126cd01f42400f2f65826880d474d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:15 +0000
Subject: [PATCH 30/69] fix: start points of an MHomogeneous start system were
 accurate only to the precision at which it was made

---
 .../function_tree/symbols/linear_product.hpp  | 38 ++++++++++---------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index 058af3d..f530bf5 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -771,23 +771,27 @@ namespace  bertini {
 			}
 			
 		};
-		
-		
-		
-		
-		
-		
-		
-		
-		
-		
-		
-		
-		
-		
-		
-		
-		
+
+
+		/**
+		 \brief Getter for the coefficients of a single linear factor, at the current default precision if they are known exactly.
+		 */
+		template<>
+		inline
+		Vec<mpfr_complex> LinearProduct::GetCoeffs<mpfr_complex>(size_t index)
+		{
+			Vec<mpfr_complex> coeff_ret(num_variables_ + 1);
+			for(int jj = 0; jj < num_variables_ + 1; ++jj)
+			{
+				if (is_rational_coeffs_)
+					coeff_ret(jj) = mpfr_complex(mpfr_float(coeffs_rat_real_(index,jj), DefaultPrecision()), mpfr_float(coeffs_rat_imag_(index,jj), DefaultPrecision()));
+				else
+					coeff_ret(jj) = std::get<Mat<mpfr_complex>>(coeffs_)(index,jj);
+			}
+			return coeff_ret;
+		}
+
+
 		/**
 		 \brief Represents the differential of a single linear.
 		 
-- 
2.43.0


From 49bd4580dded7ab80942bf5186f2ac02cb5b0c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:15 +0000
Subject: [PATCH 31/69] fix: a TotalDegree start system for a target with
 ungrouped variables had too few functions

---
 core/src/system/start/total_degree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/system/start/total_degree.cpp b/core/src/system/start/total_degree.cpp
index ddda8cc..7cba5d3 100644
--- a/core/src/system/start/total_degree.cpp
+++ b/core/src/system/start/total_degree.cpp
@@ -145,6 +145,9 @@ namespace bertini {
 			if (s.HavePathVariable())
 				throw std::runtime_error("attempting to construct total degree start system, but target system has path varible declared already");
 
+			if (s.NumUngroupedVariables() > 0)
+				throw std::runtime_error("ungrouped variables are present.  currently unallowed");
+
 			if (s.NumVariableGroups() != 1)
 				throw std::runtime_error("more than one affine variable group.  currently unallowed");
 
-- 
2.43.0


From 614013ee6c130d876b3b64cd1b5f66925ef6139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:13 +0000
Subject: [PATCH 32/69] fix: numbers in a straight line program which are not
 in the System's function trees stayed at the precision they were compiled at

---
 core/src/system/straight_line_program.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 6cd2d7c..1198bca 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -78,6 +78,7 @@ namespace bertini{
 				auto& n = std::get<Nd>(p);
 				auto& loc = std::get<size_t>(p);
 
+				n->precision(new_precision); // so that it's not evaluated from a value stored at another precision
 				mem[loc] = n->Eval<mpfr_complex>();
 			}
 
-- 
2.43.0


From 865cb068107351b7dd2d6dfc50268b7ea112acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:05 +0000
Subject: [PATCH 33/69] fix: an MHomogeneous start system for a target with
 ungrouped variables read missing variable groups, or had no start points

---
 core/src/system/start/mhom.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/system/start/mhom.cpp b/core/src/system/start/mhom.cpp
index cdb2620..d4ec348 100644
--- a/core/src/system/start/mhom.cpp
+++ b/core/src/system/start/mhom.cpp
@@ -51,6 +51,9 @@ namespace bertini
 				throw std::runtime_error("attempting to construct multi homogeneous start system from non-polynomial target system");
 
 
+			if (s.NumUngroupedVariables() > 0)
+				throw std::runtime_error("attempting to construct multi homogeneous start system, but target system has ungrouped variables");
+
 			CreateDegreeMatrix(s);
 
 
-- 
2.43.0


From b368cdadff78fdea4d5ed887c228cd485f7cbd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:05 +0000
Subject: [PATCH 34/69] fix: a User start system read past the end of its
 points for an index out of range

---
 core/src/system/start/user.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/system/start/user.cpp b/core/src/system/start/user.cpp
index 33fdde0..574879b 100644
--- a/core/src/system/start/user.cpp
+++ b/core/src/system/start/user.cpp
@@ -57,10 +57,10 @@ namespace bertini {
 		Vec<dbl> User::GenerateStartPoint(dbl,unsigned long long index) const
 		{
 			if (solns_in_dbl_)
-				return std::get<SampCont<dbl>>(solns_)[index];
+				return std::get<SampCont<dbl>>(solns_).at(index);
 			else
 			{
-				const auto& r = std::get<SampCont<mpfr_complex>>(solns_)[index];
+				const auto& r = std::get<SampCont<mpfr_complex>>(solns_).at(index);
 				Vec<dbl> pt(r.size());
 				for (unsigned ii=0; ii<r.size(); ++ii)
 					pt(ii) = dbl(r(ii));
@@ -74,7 +74,7 @@ namespace bertini {
 		{
 			if (solns_in_dbl_)
 			{
-				const auto& r = std::get<SampCont<dbl>>(solns_)[index];
+				const auto& r = std::get<SampCont<dbl>>(solns_).at(index);
 				Vec<mpfr_complex> pt(r.size());
 				for (unsigned ii=0; ii<r.size(); ++ii)
 					pt(ii) = static_cast<mpfr_complex>(r(ii));
@@ -83,7 +83,7 @@ namespace bertini {
 			}
 			else
 			{
-				return std::get<SampCont<mpfr_complex>>(solns_)[index];
+				return std::get<SampCont<mpfr_complex>>(solns_).at(index);
 			}
 		}
 
-- 
2.43.0


From d0d66fd08a5f006b68c74cefa84a22313268d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:43 +0000
Subject: [PATCH 35/69] fix: a TotalDegree start system was made for a
 homogenized unpatched target with one function too many

---
 core/src/system/start/total_degree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/system/start/total_degree.cpp b/core/src/system/start/total_degree.cpp
index 7cba5d3..76e938d 100644
--- a/core/src/system/start/total_degree.cpp
+++ b/core/src/system/start/total_degree.cpp
@@ -139,7 +139,7 @@ namespace bertini {
 			if (s.NumHomVariableGroups() > 0)
 				throw std::runtime_error("a homogeneous variable group is present.  currently unallowed");
 
-			if (s.NumTotalFunctions() != s.NumVariables())
+			if (s.NumTotalFunctions() != s.NumVariables() || s.NumNaturalFunctions() != s.NumNaturalVariables())
 				throw std::runtime_error("attempting to construct total degree start system from non-square target system");
 
 			if (s.HavePathVariable())
-- 
2.43.0


From 94bb888c46fc5e43b49603245e1364335a2c1fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:05 +0000
Subject: [PATCH 36/69] fix: the working coefficients of a copied Patch were
 not at the precision it reports

---
 core/include/bertini2/system/patch.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/bertini2/system/patch.hpp b/core/include/bertini2/system/patch.hpp
index 32d7210..d0c2175 100644
--- a/core/include/bertini2/system/patch.hpp
+++ b/core/include/bertini2/system/patch.hpp
@@ -128,6 +128,7 @@ namespace bertini {
 
 					coefficients_dbl[ii](jj) = dbl(coefficients_highest_precision_[ii](jj));
 					coefficients_mpfr[ii](jj) = mpfr_complex(coefficients_highest_precision_[ii](jj));
+					coefficients_mpfr[ii](jj).precision(precision_);
 
 					assert(coefficients_highest_precision_[ii](jj) == other.coefficients_highest_precision_[ii](jj));
 				}
-- 
2.43.0


From 17c14f837e8b71903650f88776465d932ed3afb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:05 +0000
Subject: [PATCH 37/69] fix: the working coefficients of a LinearSlice were not
 at the precision it reports

---
 core/include/bertini2/system/slice.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/system/slice.hpp b/core/include/bertini2/system/slice.hpp
index 38a26b2..ae8016b 100644
--- a/core/include/bertini2/system/slice.hpp
+++ b/core/include/bertini2/system/slice.hpp
@@ -166,16 +166,16 @@ namespace bertini {
 				{
 					for (unsigned jj=0; jj<NumVariables(); ++jj)
 					{
-						coefficients_mpfr(ii,jj).precision(new_precision);
 						if (new_precision>precision_)
-							coefficients_mpfr(ii,jj) = coefficients_highest_precision_(ii,jj);
+							coefficients_mpfr(ii,jj) = coefficients_highest_precision_(ii,jj); // assignment preserves precision of source
+						coefficients_mpfr(ii,jj).precision(new_precision);
 					}
 					
 					if (!is_homogeneous_)
 					{
-						constants_mpfr(ii).precision(new_precision);
 						if (new_precision>precision_)
 							constants_mpfr(ii) = constants_highest_precision_(ii);
+						constants_mpfr(ii).precision(new_precision);
 					}
 				}
 			}
@@ -285,6 +285,7 @@ namespace bertini {
 				{
 					std::get<Mat<dbl> >(s.coefficients_working_)(ii,jj) = dbl(s.coefficients_highest_precision_(ii,jj));
 					std::get<Mat<mpfr_complex> >(s.coefficients_working_)(ii,jj) = s.coefficients_highest_precision_(ii,jj);
+					std::get<Mat<mpfr_complex> >(s.coefficients_working_)(ii,jj).precision(s.precision_);
 				}
 
 			if (!homogeneous)
@@ -298,6 +299,7 @@ namespace bertini {
 					gen(s.constants_highest_precision_(ii), MaxPrecisionAllowed());
 					std::get<Vec<dbl> >(s.constants_working_)(ii) = dbl(s.constants_highest_precision_(ii));
 					std::get<Vec<mpfr_complex> >(s.constants_working_)(ii) = s.constants_highest_precision_(ii);
+					std::get<Vec<mpfr_complex> >(s.constants_working_)(ii).precision(s.precision_);
 				}
 			}
 
-- 
2.43.0


From 7a4d54e2e058419664fb9d6789104b48a3b60418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:51 +0000
Subject: [PATCH 38/69] fix: an archived LinearSlice lost its dimension, its
 constants and whether it is homogeneous

---
 core/include/bertini2/system/slice.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/include/bertini2/system/slice.hpp b/core/include/bertini2/system/slice.hpp
index ae8016b..b4ea698 100644
--- a/core/include/bertini2/system/slice.hpp
+++ b/core/include/bertini2/system/slice.hpp
@@ -327,7 +327,15 @@ namespace bertini {
 
 			ar & std::get<0>(coefficients_working_);
 			ar & std::get<1>(coefficients_working_);
+
+			ar & constants_highest_precision_;
+
+			ar & std::get<0>(constants_working_);
+			ar & std::get<1>(constants_working_);
+
 			ar & sliced_vars_;
+			ar & num_dims_sliced_;
+			ar & is_homogeneous_;
 		}
 
 		friend std::ostream& operator<<(std::ostream&, LinearSlice const&);
-- 
2.43.0


From 4e5d0d34847a8bef08adf224ad7b49a13c56500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:37 +0000
Subject: [PATCH 39/69] fix: making a homogeneous LinearSlice failed its own
 assertion

---
 core/include/bertini2/system/slice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/slice.hpp b/core/include/bertini2/system/slice.hpp
index b4ea698..b61a135 100644
--- a/core/include/bertini2/system/slice.hpp
+++ b/core/include/bertini2/system/slice.hpp
@@ -223,7 +223,7 @@ namespace bertini {
 		/**
 		\brief the constructor for linear slices.
 		*/
-		LinearSlice(VariableGroup const& v, unsigned dim, bool homogeneous) : sliced_vars_(v), precision_(DefaultPrecision()), num_dims_sliced_(dim), coefficients_highest_precision_(dim, v.size()), is_homogeneous_(homogeneous), constants_highest_precision_(dim)
+		LinearSlice(VariableGroup const& v, unsigned dim, bool homogeneous) : sliced_vars_(v), precision_(DefaultPrecision()), num_dims_sliced_(dim), coefficients_highest_precision_(dim, v.size()), is_homogeneous_(homogeneous), constants_highest_precision_(homogeneous ? 0 : dim)
 		{ 
 			std::get<Mat<dbl> > (coefficients_working_).resize(Dimension(), NumVariables());
 			std::get<Mat<mpfr_complex> >(coefficients_working_).resize(Dimension(), NumVariables());
-- 
2.43.0


From d8028d309154f69aceb4dd27ad5ebd82ad2313f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:22 +0000
Subject: [PATCH 40/69] fix: AMPTracker can change precision, hence refine a
 point, when its stored point does not fit the system

Refining with a tracker which has tracked no path yet, or after changing to a
system with another number of variables, ran into an assert on the size of
the stored current point.
---
 core/include/bertini2/trackers/amp_tracker.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index 233a74f..df636b7 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -1307,6 +1307,7 @@ namespace bertini{
 
 				NotifyObservers(PrecisionChanged<EmitterType>(*this,current_precision_,new_precision));
 				
+				EnsureStoredPointFitsSystem();
 
 				bool upsampling_needed = new_precision > current_precision_;
 				// reset the counter for estimating the condition number.  
@@ -1344,7 +1345,21 @@ namespace bertini{
 
 
 			private:
-			
+
+			/**
+			\brief Makes the stored point have as many coordinates as the tracked system has variables.
+
+			It does not when no path has been tracked yet, or when the system was changed since.  Then there is nothing to convert when precision changes, as when refining a point.
+			*/
+			void EnsureStoredPointFitsSystem() const
+			{
+				const auto num_vars = GetSystem().NumVariables();
+				if (std::get<Vec<dbl> >(current_space_).size()!=num_vars)
+					std::get<Vec<dbl> >(current_space_) = Vec<dbl>::Zero(num_vars);
+				if (std::get<Vec<mpfr_complex> >(current_space_).size()!=num_vars)
+					std::get<Vec<mpfr_complex> >(current_space_) = Vec<mpfr_complex>::Zero(num_vars);
+			}
+
 			/**
 			\brief Converts from double to double
 
-- 
2.43.0


From de19cd20824c68f6545c1b4214eb25fca31ded5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:00 +0000
Subject: [PATCH 41/69] fix: AMPTracker keeps all digits of the end time

The end time was cut to the precision of the start point, so that when
precision increased during tracking the path was tracked to a slightly
different time, and the endpoint was wrong after the digits of the start
point's precision.
---
 core/include/bertini2/trackers/amp_tracker.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index df636b7..76b8769 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -447,8 +447,8 @@ namespace bertini{
 				current_time_.precision(initial_precision_);
 
 				
-				endtime_highest_precision_ = end_time;
-				endtime_highest_precision_.precision(initial_precision_);
+				endtime_highest_precision_ = end_time; // with all its digits, in case precision has to increase
+				endtime_highest_precision_.precision(Precision(end_time));
 
 				endtime_ = end_time;
 				endtime_.precision(initial_precision_);
-- 
2.43.0


From 13852ceee4f7c99468a2fd38630a7459b5700143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:43 +0000
Subject: [PATCH 42/69] fix: StepsizeSatisfyingCriterionB computes its exponent
 with a sign

The exponent was computed in unsigned arithmetic, so that when Criterion B
asks for more digits than the precision has the stepsize was infinite rather
than small.
---
 core/include/bertini2/trackers/amp_tracker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index 76b8769..68a6585 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -132,7 +132,7 @@ namespace bertini{
 										unsigned num_newton_iterations,
 										unsigned predictor_order = 0)
 		{
-			return pow(mpfr_float(10), -( digits_B - precision )*num_newton_iterations/(predictor_order+1));
+			return pow(mpfr_float(10), (double(precision) - double(digits_B))*num_newton_iterations/(predictor_order+1)); // signed, digits_B may exceed precision
 		}
 		
 
-- 
2.43.0


From 9953a4e7f932dd2bde9d392a2369bb9236bab319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:24 +0000
Subject: [PATCH 43/69] fix: MinimizeTrackingCost does not consider precisions
 below the given minimum

The least precision was rounded down to a multiple of the increment, so that
AMP tracking lowered precision below what the tracking tolerance and the AMP
criteria require, and had to raise it again after failing.
---
 core/include/bertini2/trackers/amp_tracker.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index 68a6585..225af74 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -226,7 +226,7 @@ namespace bertini{
 			if (lowest_mp_precision_to_test < LowestMultiplePrecision())
 				lowest_mp_precision_to_test = LowestMultiplePrecision();
 			else
-				lowest_mp_precision_to_test = (lowest_mp_precision_to_test/PrecisionIncrement()) * PrecisionIncrement(); // use integer arithmetic to round.
+				lowest_mp_precision_to_test = ((lowest_mp_precision_to_test+PrecisionIncrement()-1)/PrecisionIncrement()) * PrecisionIncrement(); // use integer arithmetic to round up, never below the minimum.
 
 
 			if (max_precision < LowestMultiplePrecision())
@@ -234,6 +234,9 @@ namespace bertini{
 			else
 				max_precision = (max_precision/PrecisionIncrement()) * PrecisionIncrement(); // use integer arithmetic to round.
 
+			if (max_precision < lowest_mp_precision_to_test)
+				max_precision = lowest_mp_precision_to_test;
+
 			for (unsigned p = lowest_mp_precision_to_test; p <= max_precision; p+=PrecisionIncrement())
 				minimizer_routine(p);
 		}
-- 
2.43.0


From 9f21ceb75417ecfbf4670938f7d308041409dd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:16 +0000
Subject: [PATCH 44/69] fix: observers may add and remove observers while being
 notified

Removing an observer while an event is delivered, as FirstPrecisionRecorder
does, shifted the list being iterated over: one observer missed the event,
another got it twice.  Adding one could invalidate the iteration altogether.
Now the observers there were when the event came are notified, except those
removed before their turn.
---
 core/include/bertini2/detail/observable.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/core/include/bertini2/detail/observable.hpp b/core/include/bertini2/detail/observable.hpp
index 4ccc308..e118f77 100644
--- a/core/include/bertini2/detail/observable.hpp
+++ b/core/include/bertini2/detail/observable.hpp
@@ -32,6 +32,8 @@
 #ifndef BERTINI_DETAIL_OBSERVABLE_HPP
 #define BERTINI_DETAIL_OBSERVABLE_HPP
 
+#include <algorithm>
+
 #include "bertini2/detail/observer.hpp"
 #include "bertini2/detail/events.hpp"
 
@@ -88,21 +90,32 @@ namespace bertini{
 		void NotifyObservers(AnyEvent const& e) const
 		{
 
-			for (auto& obs : current_watchers_)
-				obs.get().Observe(e);
+			const auto watchers = current_watchers_; // observers may add or remove observers as they observe
+			for (auto& obs : watchers)
+				if (IsWatching(obs.get()))
+					obs.get().Observe(e);
 
 		}
 
 		void NotifyObservers(AnyEvent & e) const
 		{
 
-			for (auto& obs : current_watchers_)
-				obs.get().Observe(e);
+			const auto watchers = current_watchers_; // observers may add or remove observers as they observe
+			for (auto& obs : watchers)
+				if (IsWatching(obs.get()))
+					obs.get().Observe(e);
 		}
 
 
 	private:
 
+		bool IsWatching(AnyObserver const& observer) const
+		{
+			return std::any_of(current_watchers_.begin(), current_watchers_.end(),
+			                   [&](const auto& held_obs)
+			                   { return &held_obs.get() == &observer; });
+		}
+
 		using ObserverContainer = std::vector<std::reference_wrapper<AnyObserver>>;
 
 		mutable ObserverContainer current_watchers_;
-- 
2.43.0


From d8b46ce053fce3940c2e5a03a43e7a09b46153a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:00 +0000
Subject: [PATCH 45/69] fix: trackers emit TrackingStarted

The event was never emitted, so FirstPrecisionRecorder and
MinMaxPrecisionRecorder, which reset themselves on it, reported uninitialised
values or those of earlier paths.
---
 core/include/bertini2/trackers/amp_tracker.hpp             | 1 +
 core/include/bertini2/trackers/fixed_precision_tracker.hpp | 4 ++++
 core/include/bertini2/trackers/observers.hpp               | 6 +++---
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index 225af74..9af43f7 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -475,6 +475,7 @@ namespace bertini{
 
 				ChangePrecision<upsample_refine_off>(start_point(0).precision());
 
+				NotifyObservers(TrackingStarted<EmitterType>(*this));
 
 				auto initial_refinement_code = InitialRefinement();
 
diff --git a/core/include/bertini2/trackers/fixed_precision_tracker.hpp b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
index f8f6998..5b809cc 100644
--- a/core/include/bertini2/trackers/fixed_precision_tracker.hpp
+++ b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
@@ -463,6 +463,8 @@ namespace bertini{
 
 				ResetCounters();
 
+				this->NotifyObservers(TrackingStarted<EmitterType>(*this));
+
 				return SuccessCode::Success;
 			}
 
@@ -548,6 +550,8 @@ namespace bertini{
 
 				ResetCounters();
 
+				this->NotifyObservers(TrackingStarted<EmitterType>(*this));
+
 				return SuccessCode::Success;
 			}
 
diff --git a/core/include/bertini2/trackers/observers.hpp b/core/include/bertini2/trackers/observers.hpp
index 427d6a5..86a3df2 100644
--- a/core/include/bertini2/trackers/observers.hpp
+++ b/core/include/bertini2/trackers/observers.hpp
@@ -101,9 +101,9 @@ namespace bertini {
 
 		private:
 
-			unsigned starting_precision_;
-			unsigned next_precision_;
-			bool precision_increased_;
+			unsigned starting_precision_ = 0;
+			unsigned next_precision_ = 0;
+			bool precision_increased_ = false;
 			typename TrackerTraits<TrackerT>::BaseComplexType time_of_first_increase_;
 		};
 
-- 
2.43.0


From 2097319d094bcb75049f0e63c8d4302ab8325e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:08 +0000
Subject: [PATCH 46/69] fix: a leading sign in a parsed function applies to the
 factor it precedes

The parser read -x+y as -(x+y), 2*-x+y as 2*(-(x+y)), and -2^2 as (-2)^2.
---
 core/include/bertini2/io/parsing/function_rules.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/io/parsing/function_rules.hpp b/core/include/bertini2/io/parsing/function_rules.hpp
index 3dcdf40..cb135ff 100644
--- a/core/include/bertini2/io/parsing/function_rules.hpp
+++ b/core/include/bertini2/io/parsing/function_rules.hpp
@@ -196,10 +196,10 @@ namespace bertini {
 					
 					exp_elem_.name("exp_elem_");
 					exp_elem_ =
-					(symbol_  >> !qi::alnum) [_val = _1]
+					(lit('-') > factor_  [_val = -_1]) // a sign belongs to the factor it precedes: -x^2+y is (-(x^2))+y
+					|   (lit('+') > factor_  [_val = _1])
+					|   (symbol_  >> !qi::alnum) [_val = _1]
 					|   ( '(' > expression_  [_val = _1] > ')'  ) // using the > expectation here.
-					|   (lit('-') > expression_  [_val = -_1])
-					|   (lit('+') > expression_  [_val = _1])
 					|   (lit("sin") > '(' > expression_ [_val = sin_lazy(_1)] > ')' )
 					|   (lit("cos") > '(' > expression_ [_val = cos_lazy(_1)] > ')' )
 					|   (lit("tan") > '(' > expression_ [_val = tan_lazy(_1)] > ')' )
-- 
2.43.0


From 6e8b25a8cb4809275c5c4e623c35e73c65df7a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:08 +0000
Subject: [PATCH 47/69] fix: numbers with an exponent but no decimal point can
 be parsed in functions

They were read as integers, and 1e5 threw.
---
 core/include/bertini2/io/parsing/function_rules.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/io/parsing/function_rules.hpp b/core/include/bertini2/io/parsing/function_rules.hpp
index cb135ff..1988f3e 100644
--- a/core/include/bertini2/io/parsing/function_rules.hpp
+++ b/core/include/bertini2/io/parsing/function_rules.hpp
@@ -236,6 +236,8 @@ namespace bertini {
 					number_ =
 					mpfr_rules_.long_number_string_ [ _val = make_shared_<Float>()(_1) ]
 					|
+					(mpfr_rules_.number_with_no_point_ >> mpfr_rules_.exponent_notation_) [ _val = make_shared_<Float>()(_1+_2) ] // an exponent makes it a Float, 1e-5 is not an integer
+					|
 					mpfr_rules_.integer_string_ [ _val = make_shared_<Integer>()(_1) ];
 					
 					
-- 
2.43.0


From 624a5c700b016e750d82f5a189c76dfaeacfdafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:08 +0000
Subject: [PATCH 48/69] fix: names which begin with another name can be
 declared

"variable_group x, x1;" was refused, as was any name beginning with e, i, or pi.
---
 core/include/bertini2/io/parsing/system_rules.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/io/parsing/system_rules.hpp b/core/include/bertini2/io/parsing/system_rules.hpp
index d8083ed..095b0e0 100644
--- a/core/include/bertini2/io/parsing/system_rules.hpp
+++ b/core/include/bertini2/io/parsing/system_rules.hpp
@@ -214,7 +214,7 @@ namespace bertini {
 					
 					// this rule gets a string.
 					unencountered_symbol_.name("unencountered_symbol_");
-					unencountered_symbol_ = valid_variable_name_ - lexeme[( declarative_symbols_ | encountered_symbols_ )];
+					unencountered_symbol_ = valid_variable_name_ - lexeme[( declarative_symbols_ | encountered_symbols_ ) >> !(qi::alnum | qi::char_("[]_"))]; // the whole name, not merely its beginning, must be new
 					// i am unsure about the use of lexeme in the above rule (unencountered_symbol).
 					
 					
-- 
2.43.0


From 230b59bc6fed224a28bc52c87d9cb35e50db63f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:56 +0000
Subject: [PATCH 49/69] fix: parsed integer powers are integer powers

As general powers, x^0 and the derivative of x^1 were nan at x=0 in double precision.
---
 core/include/bertini2/io/parsing/function_rules.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/io/parsing/function_rules.hpp b/core/include/bertini2/io/parsing/function_rules.hpp
index 1988f3e..a52ccc1 100644
--- a/core/include/bertini2/io/parsing/function_rules.hpp
+++ b/core/include/bertini2/io/parsing/function_rules.hpp
@@ -189,7 +189,10 @@ namespace bertini {
 						 > exp_elem_ [ phx::bind( []
 												 (std::shared_ptr<Node> & B, std::shared_ptr<Node> P)
 												 {
-													 B = pow(B,P);
+													 if (std::dynamic_pointer_cast<Integer>(P) && abs(P->Eval<dbl>()) < 1e9)
+														 B = pow(B,static_cast<int>(real(P->Eval<dbl>()))); // so that x^0 and x^1 can be evaluated and differentiated at x=0
+													 else
+														 B = pow(B,P);
 												 },
 												 _val,_1)] )
 					;
-- 
2.43.0


From 85bd6a226000dc39fd8e1c6b4e981c30535aa9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:56 +0000
Subject: [PATCH 50/69] fix: a Float made from a string keeps all its digits

They were dropped beyond the default precision at that time, so a System parsed in double precision had only 16 digits of its coefficients however high the precision later.
---
 .../bertini2/function_tree/symbols/number.hpp  | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/function_tree/symbols/number.hpp b/core/include/bertini2/function_tree/symbols/number.hpp
index 01a63f7..df17c97 100755
--- a/core/include/bertini2/function_tree/symbols/number.hpp
+++ b/core/include/bertini2/function_tree/symbols/number.hpp
@@ -281,13 +281,29 @@ namespace node{
 		{}
 
 		explicit
-		Float(std::string const& val) : highest_precision_value_(val)
+		Float(std::string const& val) : highest_precision_value_(WithAllDigits(val))
 		{}
 
 		explicit
 		Float(std::string const& rval, std::string const& ival) : highest_precision_value_(rval,ival)
 		{}
 
+		/**
+		\brief A number from its decimal digits, of which none are dropped, even when there are more than the default precision.
+		*/
+		static mpfr_complex WithAllDigits(std::string const& val)
+		{
+			struct RestorePrecision
+			{
+				unsigned prec = DefaultPrecision();
+				~RestorePrecision(){ DefaultPrecision(prec); }
+			} restore;
+
+			if (val.size() > restore.prec)
+				DefaultPrecision(val.size());
+			return mpfr_complex(val);
+		}
+
 		dbl FreshEval_d(std::shared_ptr<Variable> const& diff_variable) const override;
 		
 		void FreshEval_d(dbl& evaluation_value, std::shared_ptr<Variable> const& diff_variable) const override;
-- 
2.43.0


From 08ea674182dadab30a5e1cb3542e45f94ce79f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:26 +0000
Subject: [PATCH 51/69] fix: an input file without END; is not read twice over

---
 core/include/bertini2/io/parsing/classic_utilities.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/io/parsing/classic_utilities.hpp b/core/include/bertini2/io/parsing/classic_utilities.hpp
index 132bba0..26e5070 100644
--- a/core/include/bertini2/io/parsing/classic_utilities.hpp
+++ b/core/include/bertini2/io/parsing/classic_utilities.hpp
@@ -229,12 +229,12 @@ namespace bertini {
 					
 					
 					only_input_.name("have_only_input");
-					only_input_ = (
-								   (omit[input_] >> end_ >> omit[no_decl_]) // 3
+					only_input_ = ( // hold: what a failed alternative had collected must not stay in front of what the next one finds
+								   qi::hold[omit[input_] >> end_ >> omit[no_decl_]] // 3
 								   |
 								   (omit[input_] >> no_decl_) // 2
 								   |
-								   (end_ >> omit[no_decl_])  // 1
+								   qi::hold[end_ >> omit[no_decl_]]  // 1
 								   |
 								   (no_decl_) // 0
 								   )
-- 
2.43.0


From 3df5ae28c5b583e0792d421dedb8a30bac707b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:26 +0000
Subject: [PATCH 52/69] fix: comments in an input file are ignored

---
 core/include/bertini2/io/parsing/classic_utilities.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/core/include/bertini2/io/parsing/classic_utilities.hpp b/core/include/bertini2/io/parsing/classic_utilities.hpp
index 26e5070..13f4b98 100644
--- a/core/include/bertini2/io/parsing/classic_utilities.hpp
+++ b/core/include/bertini2/io/parsing/classic_utilities.hpp
@@ -403,13 +403,7 @@ namespace bertini {
 			 */
 			std::tuple<std::string, std::string> SplitIntoConfigAndInput(Path const& input_file)
 			{
-				auto file_as_string = FileToString(input_file);
-				
-				SplitInputFileParser<std::string::const_iterator> parser;
-				SplitInputFile config_and_input;
-				std::string::const_iterator iter = file_as_string.begin();
-				std::string::const_iterator end = file_as_string.end();
-				phrase_parse(iter, end, parser, boost::spirit::ascii::space, config_and_input);
+				auto config_and_input = ParseInputFile(FileToString(input_file)); // which removes the comments, too
 
 				return std::make_tuple(config_and_input.Config(), config_and_input.Input());
 			}
-- 
2.43.0


From 21df85b4461670970484d6e9128ec21afbf8bf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:39 +0000
Subject: [PATCH 53/69] fix: integers with leading zeros are decimal in parsed
 functions

---
 core/include/bertini2/io/parsing/function_rules.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/io/parsing/function_rules.hpp b/core/include/bertini2/io/parsing/function_rules.hpp
index a52ccc1..418196f 100644
--- a/core/include/bertini2/io/parsing/function_rules.hpp
+++ b/core/include/bertini2/io/parsing/function_rules.hpp
@@ -241,7 +241,12 @@ namespace bertini {
 					|
 					(mpfr_rules_.number_with_no_point_ >> mpfr_rules_.exponent_notation_) [ _val = make_shared_<Float>()(_1+_2) ] // an exponent makes it a Float, 1e-5 is not an integer
 					|
-					mpfr_rules_.integer_string_ [ _val = make_shared_<Integer>()(_1) ];
+					mpfr_rules_.integer_string_ [ phx::bind( []
+																(std::shared_ptr<Node> & N, std::string const& digits)
+																{
+																	N = Integer::Make(digits.substr(std::min(digits.find_first_not_of('0'), digits.size()-1))); // leading zeros do not make it octal
+																},
+																_val,_1) ];
 					
 					
 					
-- 
2.43.0


From d99b296208452a1bec02742eb43d79675f2bfd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:41 +0000
Subject: [PATCH 54/69] fix: endgames approach any target time geometrically by
 the sample factor

The next time was (t + target) * factor in the power series endgame and the initial samples,
and target + (1 - factor) (t - target) in the Cauchy endgame: both are the documented
progression for a factor of 1/2 only, the first with another factor does not approach a
target other than 0 at all.
---
 core/include/bertini2/endgames/base_endgame.hpp | 2 +-
 core/include/bertini2/endgames/cauchy.hpp       | 2 +-
 core/include/bertini2/endgames/powerseries.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/endgames/base_endgame.hpp b/core/include/bertini2/endgames/base_endgame.hpp
index 6fe1657..fbae4b0 100644
--- a/core/include/bertini2/endgames/base_endgame.hpp
+++ b/core/include/bertini2/endgames/base_endgame.hpp
@@ -359,7 +359,7 @@ public:
 		//start at 1, because the input point is the 0th element.
 		for(int ii=1; ii < this->template Get<EndgameConfig>().num_sample_points; ++ii)
 		{ 
-			times.emplace_back((times[ii-1] + target_time) * RT(this->template Get<EndgameConfig>().sample_factor)); // next time is a point between the previous time and target time.
+			times.emplace_back((times[ii-1] - target_time) * RT(this->template Get<EndgameConfig>().sample_factor) + target_time); // next time is a point between the previous time and target time.
 			samples.emplace_back(Vec<CT>(num_vars));											   // sample_factor gives us some point between the two, usually the midpoint.		
 
 			auto tracking_success = this->GetTracker().TrackPath(samples[ii],times[ii-1],times[ii],samples[ii-1]);
diff --git a/core/include/bertini2/endgames/cauchy.hpp b/core/include/bertini2/endgames/cauchy.hpp
index 0044c4e..0ca762e 100644
--- a/core/include/bertini2/endgames/cauchy.hpp
+++ b/core/include/bertini2/endgames/cauchy.hpp
@@ -1022,7 +1022,7 @@ public:
 		auto& current_sample = ps_samples.back();
 
 		//Generalized next_time in case if we are not trying to converge to the t = 0.
-		CT next_time = (target_time-current_time) * static_cast<RT>(this->EndgameSettings().sample_factor)+current_time;
+		CT next_time = (current_time-target_time) * static_cast<RT>(this->EndgameSettings().sample_factor)+target_time;
 
 		if (abs(next_time - target_time) < this->EndgameSettings().min_track_time)//we are too close to t = 0 but we do not have the correct tolerance - so we exit
 			return SuccessCode::MinTrackTimeReached;
diff --git a/core/include/bertini2/endgames/powerseries.hpp b/core/include/bertini2/endgames/powerseries.hpp
index 8a6f5f4..ca2d78e 100644
--- a/core/include/bertini2/endgames/powerseries.hpp
+++ b/core/include/bertini2/endgames/powerseries.hpp
@@ -574,7 +574,7 @@ public:
 		AssertSizesTimeSpaceDeriv<CT>();
 
 		Vec<CT> next_sample;
-		CT next_time = (times.back() + target_time) * static_cast<RT>(this->EndgameSettings().sample_factor); //setting up next time value using the midpoint formula, sample_factor will give us some 
+		CT next_time = (times.back() - target_time) * static_cast<RT>(this->EndgameSettings().sample_factor) + target_time; //setting up next time value using the midpoint formula, sample_factor will give us some 
 
   		if (abs(next_time - target_time) < this->EndgameSettings().min_track_time) // generalized for target_time not equal to 0.
   		{
-- 
2.43.0


From 0eaf68591723efabcfb83ce100cb157699161cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:37 +0000
Subject: [PATCH 55/69] fix: the Cauchy endgame applies the security norm at
 level 0, as the power series endgame does

The test was made at every level but 0, against a previous norm which was only computed at
level 0.
---
 core/include/bertini2/endgames/cauchy.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/endgames/cauchy.hpp b/core/include/bertini2/endgames/cauchy.hpp
index 0ca762e..b378155 100644
--- a/core/include/bertini2/endgames/cauchy.hpp
+++ b/core/include/bertini2/endgames/cauchy.hpp
@@ -1123,20 +1123,19 @@ public:
 				return SuccessCode::Success;
 			}
 
-			if (this->SecuritySettings().level)
+			if (this->SecuritySettings().level <= 0)
 			{//we are too large, break out of loop to return error.
 				norm_of_dehom_latest = this->GetSystem().DehomogenizePoint(latest_approx).template lpNorm<Eigen::Infinity>();
-
 				if (norm_of_dehom_prev   > this->SecuritySettings().max_norm &&  
 					norm_of_dehom_latest > this->SecuritySettings().max_norm  )
 				{
 					NotifyObservers(SecurityMaxNormReached<EmitterType>(*this));
 					return SuccessCode::SecurityMaxNormReached;
 				}
+				norm_of_dehom_prev = norm_of_dehom_latest;
 			}
 
 			prev_approx = latest_approx;
-			norm_of_dehom_prev = norm_of_dehom_latest;
 
 			auto advance_success = AdvanceTime<CT>(target_time);
 			if (advance_success != SuccessCode::Success)
-- 
2.43.0


From b9933fea9d3177ca12fe72fcf018568f45668c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:37 +0000
Subject: [PATCH 56/69] fix: the first loops of the Cauchy endgame stop at the
 maximum cycle number, not one past it

---
 core/include/bertini2/endgames/cauchy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/endgames/cauchy.hpp b/core/include/bertini2/endgames/cauchy.hpp
index b378155..687b024 100644
--- a/core/include/bertini2/endgames/cauchy.hpp
+++ b/core/include/bertini2/endgames/cauchy.hpp
@@ -762,7 +762,7 @@ public:
 						loop_hasnt_closed = false;
 						break;
 					}
-					else if(this->CycleNumber() > fail_safe_max_cycle_number)
+					else if(this->CycleNumber() >= fail_safe_max_cycle_number)
 					{// too many iterations
 						initial_cauchy_loop_success = SuccessCode::CycleNumTooHigh;
 						loop_hasnt_closed = false;
-- 
2.43.0


From 019459e69b75d6f1fa47e5c94db63492e5ecb5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:48 +0000
Subject: [PATCH 57/69] fix: the power series endgame keeps the approximation
 before the last

The previous approximation was overwritten by the final one on convergence, so that every
accuracy estimate computed from the two was zero.
---
 core/include/bertini2/endgames/powerseries.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/endgames/powerseries.hpp b/core/include/bertini2/endgames/powerseries.hpp
index ca2d78e..61af938 100644
--- a/core/include/bertini2/endgames/powerseries.hpp
+++ b/core/include/bertini2/endgames/powerseries.hpp
@@ -702,6 +702,9 @@ public:
 	 			return advance_code;
 	 		}
 
+	 		Precision(prev_approx, Precision(latest_approx));
+	 		prev_approx = latest_approx;
+
 	 		// this code is what bertini1 does... it refines all samples, like, all the time.
 	 		this->template RefineAllSamples<CT>(samples, times);
 	 		ComputeAllDerivatives<CT>();
@@ -731,8 +734,6 @@ public:
 	 		
 
 
-	 		Precision(prev_approx, Precision(latest_approx));
-	 		prev_approx = latest_approx;
 		} //end while	
 
 		NotifyObservers(Converged<EmitterType>(*this));
-- 
2.43.0


From b834d51ac7f96a525b56a6f95e21050e23849c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:47 +0000
Subject: [PATCH 58/69] fix: crossed paths are re-run when their start points
 differ, not when they are the same

---
 core/include/bertini2/nag_algorithms/midpath_check.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/nag_algorithms/midpath_check.hpp b/core/include/bertini2/nag_algorithms/midpath_check.hpp
index c7ead7f..b050551 100644
--- a/core/include/bertini2/nag_algorithms/midpath_check.hpp
+++ b/core/include/bertini2/nag_algorithms/midpath_check.hpp
@@ -158,7 +158,7 @@ namespace bertini{
 							
 							const auto start_jj = start_system.template StartPoint<ComplexType>(jj);
 							auto diff_start = start_ii - start_jj;
-							bool same_start = (diff_start.template lpNorm<Eigen::Infinity>() > SamePointTol());
+							bool same_start = (diff_start.template lpNorm<Eigen::Infinity>() < SamePointTol());
 							
 							
 							// Check if path has already been stored in crossed_paths_
-- 
2.43.0


From 41d88954c2d9ce4bf6305aa1b89e740014f0ed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:47 +0000
Subject: [PATCH 59/69] fix: each check for path crossings begins afresh, so
 that re-running the crossed paths can succeed

---
 core/include/bertini2/nag_algorithms/midpath_check.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/include/bertini2/nag_algorithms/midpath_check.hpp b/core/include/bertini2/nag_algorithms/midpath_check.hpp
index b050551..b28b03c 100644
--- a/core/include/bertini2/nag_algorithms/midpath_check.hpp
+++ b/core/include/bertini2/nag_algorithms/midpath_check.hpp
@@ -134,6 +134,9 @@ namespace bertini{
 			template <typename StartSystemT>
 			bool Check(BoundaryData const& boundary_data, StartSystemT const& start_system)
 			{
+				passed_ = true;
+				crossed_paths_.clear();
+
 				for (PathIndT ii = 0; ii < boundary_data.size(); ++ii)
 				{
 					if ( boundary_data[ii].success_code != SuccessCode::Success)
-- 
2.43.0


From 7b3a54c9ab9df24883c0aeb782c75d5afecbe47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:47 +0000
Subject: [PATCH 60/69] fix: a repeated zero dim solve starts with fresh
 results and metadata

---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 7ab3919..11d8eac 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -574,9 +574,9 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 			{
 				auto num_as_size_t = static_cast<SolnIndT>(num_start_points_);
 
-				solution_final_metadata_.resize(num_as_size_t);
-				solutions_at_endgame_boundary_.resize(num_as_size_t);
-				solutions_post_endgame_.resize(num_as_size_t);
+				solution_final_metadata_.assign(num_as_size_t, SolutionMetaDataT());
+				solutions_at_endgame_boundary_.assign(num_as_size_t, EGBoundaryMetaDataT());
+				solutions_post_endgame_.assign(num_as_size_t, Vec<BaseComplexType>());
 
 				SetMidpathRetrackTol(this->template Get<Tolerances>().newton_before_endgame);
 			}
-- 
2.43.0


From abb5c51e1f8a9e9f5cb8b13e7478151a6688c8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:47 +0000
Subject: [PATCH 61/69] fix: a repeated zero dim solve begins its paths with
 the initial step size again

---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 11d8eac..1f850ee 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -593,6 +593,7 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 				DefaultPrecision(this->template Get<ZeroDimConf>().initial_ambient_precision);
 
 				GetTracker().SetTrackingTolerance(this->template Get<Tolerances>().newton_before_endgame);
+				GetTracker().ReinitializeInitialStepSize(true);
 
 				auto t_start = this->template Get<ZeroDimConf>().start_time;
 				auto t_endgame_boundary = this->template Get<ZeroDimConf>().endgame_boundary;
-- 
2.43.0


From ab1b57cfd393f6a774976618b302cb8b684f4448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:31 +0000
Subject: [PATCH 62/69] fix: the endgame of a zero dim solve is given times of
 the precision of the boundary point

---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 1f850ee..a2dd880 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -732,6 +732,8 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 				// we make these fresh so they are in the correct precision to start.
 				BaseComplexType t_end = this->template Get<ZeroDimConf>().target_time;
 				BaseComplexType t_endgame_boundary = this->template Get<ZeroDimConf>().endgame_boundary;
+				Precision(t_end, Precision(bdry_point));
+				Precision(t_endgame_boundary, Precision(bdry_point));
 
 				auto eg_success = GetEndgame().Run(t_endgame_boundary, bdry_point, t_end);
 
-- 
2.43.0


From 1accbedc2864fa72ed9bb55b3b04bc745f365bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:31 +0000
Subject: [PATCH 63/69] fix: the check for path crossings of a zero dim solve
 uses start points of the initial precision

---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index a2dd880..4581d72 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -656,12 +656,15 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 
 			void EGBoundaryAction()
 			{
+				// the start points are compared in the precision the paths were started in, whichever the tracker has left
+				DefaultPrecision(this->template Get<ZeroDimConf>().initial_ambient_precision);
 				auto midcheckpassed = midpath_.Check(solutions_at_endgame_boundary_, StartSystem());
 
 				unsigned num_resolve_attempts = 0;
 				while (!midcheckpassed && num_resolve_attempts < this->template Get<ZeroDimConf>().max_num_crossed_path_resolve_attempts)
 				{
 					MidpathResolve();
+					DefaultPrecision(this->template Get<ZeroDimConf>().initial_ambient_precision);
 					midcheckpassed = midpath_.Check(solutions_at_endgame_boundary_, StartSystem());
 					num_resolve_attempts++;
 				}
-- 
2.43.0


From 050e481ed61ab6c64bb8360e452ea9e6a68dacea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:31 +0000
Subject: [PATCH 64/69] fix: a zero dim solve makes its start points in the
 initial ambient precision

---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 4581d72..2c42c1c 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -592,6 +592,8 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 			{
 				DefaultPrecision(this->template Get<ZeroDimConf>().initial_ambient_precision);
 
+				StartSystem().precision(this->template Get<ZeroDimConf>().initial_ambient_precision);
+
 				GetTracker().SetTrackingTolerance(this->template Get<Tolerances>().newton_before_endgame);
 				GetTracker().ReinitializeInitialStepSize(true);
 
-- 
2.43.0


From 5fe51bf9ab135ebe027d4cb9e89313789ee9b04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:50 +0000
Subject: [PATCH 65/69] fix: a tolerances setting is read only where a word
 starts, so SliceFinalTol is not taken for FinalTol

---
 .../io/parsing/settings_parsers/algorithm.hpp    | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
index 35a666f..dd05ddc 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
@@ -96,36 +96,40 @@ namespace bertini {
 					all_names_ = (no_case[newton_before_name] >> ':') | (no_case[newton_during_name] >> ':')| (no_case[final_tol_name] >> ':')
 					| (no_case[path_trunc_name] >> ':');
 					
+					// a name counts only where a word starts, so that slicefinaltol is not taken for finaltol
+					skipped_.name("skipped_");
+					skipped_ = *((lexeme[+qi::alnum] | char_) - all_names_);
+					
 					newton_before_endgame_.name("newton_before_endgame_");
-					newton_before_endgame_ = *(char_ - all_names_) >> (no_case[newton_before_name] >> ':')
+					newton_before_endgame_ = skipped_ >> (no_case[newton_before_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					newton_during_endgame_.name("newton_during_endgame_");
-					newton_during_endgame_ = *(char_ - all_names_) >> (no_case[newton_during_name] >>':')
+					newton_during_endgame_ = skipped_ >> (no_case[newton_during_name] >>':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					final_tol_.name("final_tol_");
-					final_tol_ = *(char_ - all_names_) >> (no_case[final_tol_name] >> ':')
+					final_tol_ = skipped_ >> (no_case[final_tol_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					path_trunc_threshold_.name("path_trunc_threshold_");
-					path_trunc_threshold_ = *(char_ - all_names_) >> (no_case[path_trunc_name] >> ':')
+					path_trunc_threshold_ = skipped_ >> (no_case[path_trunc_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - all_names_);
+					no_setting_ = skipped_;
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
@@ -156,7 +160,7 @@ namespace bertini {
 				qi::rule<Iterator, algorithm::TolerancesConfig(), ascii::space_type > root_rule_;
 				qi::rule<Iterator, T(), ascii::space_type > newton_before_endgame_, newton_during_endgame_,
 				final_tol_, path_trunc_threshold_;
-				qi::rule<Iterator, ascii::space_type, std::string()> no_decl_, no_setting_, all_names_;
+				qi::rule<Iterator, ascii::space_type, std::string()> no_decl_, no_setting_, skipped_, all_names_;
 				rules::LongNum<Iterator> mpfr_rules;
 				
 				
-- 
2.43.0


From a48f4542b9a062b3d8e89092e807afcd458e472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 66/69] fix: the path variable name setting holds the name
 alone, not the settings before it

---
 core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
index dd05ddc..85278aa 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
@@ -255,7 +255,7 @@ namespace bertini {
 
 
 					path_variable_name_.name("path_variable_name_");
-					path_variable_name_ = *(char_ - all_names_) >> (no_case[path_variable_name_name] >> ':') >> valid_variable_name_ >> ';';
+					path_variable_name_ = omit[*(char_ - all_names_)] >> (no_case[path_variable_name_name] >> ':') >> valid_variable_name_ >> ';';
 
 					init_prec_.name("init_prec_");
 					init_prec_ = *(char_ - all_names_) >> (no_case[init_prec_name] >> ':') >> qi::int_[_val=_1] >> ';';
-- 
2.43.0


From 3c72fa6a22c4871f9d29f7ce20e4cae4cc789a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 67/69] fix: a malformed precision type setting with a space
 before the colon is refused, not ignored

---
 core/include/bertini2/io/parsing/settings_parsers/tracking.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp b/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
index 2bc4373..2d49bae 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
@@ -99,7 +99,7 @@ namespace bertini {
 					config_name_ = *(char_ - (no_case["mptype"]>>':')) >> (no_case["mptype"] >> ':') >> precisiontype_[_val = _1] >> ';';
 					
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - no_case["mptype:"]);
+					no_setting_ = *(char_ - (no_case["mptype"]>>':'));
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
-- 
2.43.0


From 131a9b17664486dbe0eb67529a222e83544fdb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 68/69] fix: settings which are counts are refused when
 negative, not wrapped to huge ones

---
 .../bertini2/io/parsing/settings_parsers/algorithm.hpp      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
index 85278aa..c529494 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
@@ -258,10 +258,10 @@ namespace bertini {
 					path_variable_name_ = omit[*(char_ - all_names_)] >> (no_case[path_variable_name_name] >> ':') >> valid_variable_name_ >> ';';
 
 					init_prec_.name("init_prec_");
-					init_prec_ = *(char_ - all_names_) >> (no_case[init_prec_name] >> ':') >> qi::int_[_val=_1] >> ';';
+					init_prec_ = *(char_ - all_names_) >> (no_case[init_prec_name] >> ':') >> qi::uint_[_val=_1] >> ';';
 
 					max_cross_resolve_.name("max_cross_resolve_");
-					max_cross_resolve_ = *(char_ - all_names_) >> (no_case[max_cross_resolve_name] >> ':') >> qi::int_[_val=_1] >> ';';
+					max_cross_resolve_ = *(char_ - all_names_) >> (no_case[max_cross_resolve_name] >> ':') >> qi::uint_[_val=_1] >> ';';
 
 					start_time_.name("start_time_");
 					start_time_ = *(char_ - all_names_) >> (no_case[start_time_name] >> ':')
@@ -676,7 +676,7 @@ namespace bertini {
 					higher_dim_check_ = *(char_ - all_names_) >> (no_case[higher_dim_check_name] >> ':') >> qi::int_[_val=_1] >> ';';
 
 					start_level_.name("start_level_");
-					start_level_ = *(char_ - all_names_) >> (no_case[start_level_name] >> ':') >> qi::int_[_val=_1] >> ';';
+					start_level_ = *(char_ - all_names_) >> (no_case[start_level_name] >> ':') >> qi::uint_[_val=_1] >> ';';
 
 					regen_remove_inf_.name("regen_remove_inf_");
 					regen_remove_inf_ = *(char_ - all_names_) >> (no_case[regen_remove_inf_name] >> ':') >> qi::int_[_val=_1] >> ';';
-- 
2.43.0


From 64cbcbc50441c4dde74bbed8bca297d86f446d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:44 +0000
Subject: [PATCH 69/69] fix: predictor, algorithm and Newton settings are found
 by their name with its colon, as all others are

---
 .../bertini2/io/parsing/settings_parsers/algorithm.hpp        | 2 +-
 .../include/bertini2/io/parsing/settings_parsers/tracking.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
index c529494..7817f88 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
@@ -895,7 +895,7 @@ namespace bertini {
 					config_name_ = *(char_ - (no_case[setting_name] >> ':')) >> (no_case[setting_name] >> ':') >> tracktype_[_val = _1] >> ';';
 					
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - no_case[setting_name]);
+					no_setting_ = *(char_ - (no_case[setting_name] >> ':'));
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
diff --git a/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp b/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
index 2d49bae..1dd338b 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
@@ -187,7 +187,7 @@ namespace bertini {
 					config_name_ = *(char_ - (no_case[setting_name] >> ':')) >> (no_case[setting_name] >> ':') >> predictor_[_val = _1] >> ';';
 					
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - no_case[setting_name]);
+					no_setting_ = *(char_ - (no_case[setting_name] >> ':'));
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
@@ -422,7 +422,7 @@ namespace bertini {
 					all_names_ = eps >> (no_case[maxits_name] >> ':');
 					
 					max_its_.name("max_its_");
-					max_its_ = *(char_ - no_case[maxits_name]) >> (no_case[maxits_name] >> ':') >> qi::uint_[_val=_1] >> ';';
+					max_its_ = *(char_ - all_names_) >> (no_case[maxits_name] >> ':') >> qi::uint_[_val=_1] >> ';';
 					
 					no_setting_.name("no_setting_");
 					no_setting_ = *(char_ - all_names_);
-- 
2.43.0

