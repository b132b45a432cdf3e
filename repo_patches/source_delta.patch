From 13f8267d5f12ee459235bee731522ca96379801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 01/16] fix: view_vector assignment from a swizzle of itself
 must read all components before writing

---
 include/dsga.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 940621c..0a2ad27 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -5876,7 +5876,9 @@ namespace dsga
 		requires Writable && Mutable && implicitly_convertible_to<U, T>
 		constexpr view_vector & operator =(const vector_base<W, U, Count, D> &other) & noexcept
 		{
-			std::copy(other.begin(), other.end(), store);
+			// other might be a swizzle of this view_vector, so get all its values before writing any of them
+			const basic_vector<T, Size> values(other);
+			std::copy(values.begin(), values.end(), store);
 			return *this;
 		}
 
@@ -5884,7 +5886,9 @@ namespace dsga
 		requires Writable && Mutable && implicitly_convertible_to<U, T>
 		constexpr view_vector & operator =(vector_base<W, U, Count, D> &&other) & noexcept
 		{
-			std::copy(other.begin(), other.end(), store);
+			// other might be a swizzle of this view_vector, so get all its values before writing any of them
+			const basic_vector<T, Size> values(other);
+			std::copy(values.begin(), values.end(), store);
 			return *this;
 		}
 	};
-- 
2.43.0


From 6b482874f7f4b526bc0531e52d9dff7fd67c206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 02/16] fix: swizzle iterators must be able to advance to their
 end position

---
 include/dsga.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 0a2ad27..0743a8b 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2403,7 +2403,7 @@ namespace dsga
 
 		constexpr indexed_vector_const_iterator &operator +=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) <= end_index), "offset not in range");
 
 			mapper_index += offset;
 			return *this;
@@ -2411,7 +2411,7 @@ namespace dsga
 
 		constexpr indexed_vector_const_iterator &operator -=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) <= end_index), "offset not in range");
 
 			mapper_index -= offset;
 			return *this;
@@ -2665,7 +2665,7 @@ namespace dsga
 
 		constexpr indexed_view_const_iterator &operator +=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) <= end_index), "offset not in range");
 
 			mapper_index += offset;
 			return *this;
@@ -2673,7 +2673,7 @@ namespace dsga
 
 		constexpr indexed_view_const_iterator &operator -=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) <= end_index), "offset not in range");
 
 			mapper_index -= offset;
 			return *this;
-- 
2.43.0


From 836d4781dcdd58c7fad4acdc9c97008367fb543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 03/16] fix: free swap() of view_wrapper must let range_error
 reach the caller

---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 0743a8b..3313566 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2037,7 +2037,7 @@ namespace dsga
 
 	template <bool Mutable, dimensional_scalar T, std::size_t S>
 	requires Mutable
-	constexpr void swap(view_wrapper<Mutable, T, S> &lhs, view_wrapper<Mutable, T, S> &rhs) noexcept
+	constexpr void swap(view_wrapper<Mutable, T, S> &lhs, view_wrapper<Mutable, T, S> &rhs)
 	{
 		lhs.swap(rhs);
 	}
-- 
2.43.0


From fd899bd4eeb52f0906c838bbadc97dc1b17d5746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 04/16] fix: shift() must not negate the most negative int

---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 3313566..d7fb5eb 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2208,7 +2208,7 @@ namespace dsga
 			}
 			else if (by < 0)
 			{
-				int count = -by > max_val ? max_val : -by;
+				int count = by < -max_val ? max_val : -by;
 				std::shift_right(copy.begin(), copy.end(), count);
 				std::ranges::fill_n(copy.begin(), count, T(0));
 			}
-- 
2.43.0


From ec80144dd30e9877b526d0d8b38cf670cd465d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 05/16] fix: views must be accepted as components in vector
 constructors, as they are for matrices

---
 include/dsga.hxx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index d7fb5eb..1d652a8 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -3470,6 +3470,24 @@ namespace dsga
 		{
 		};
 
+		template <bool M, dimensional_scalar U, std::size_t S, dimensional_scalar T>
+		requires std::convertible_to<U, T>
+		struct valid_vector_component<basic_view<M, U, S>, T> : std::true_type
+		{
+		};
+
+		template <bool M, dimensional_scalar U, std::size_t S, std::size_t C, std::size_t ...Is, dimensional_scalar T>
+		requires std::convertible_to<U, T>
+		struct valid_vector_component<indexed_view<M, U, S, C, Is...>, T> : std::true_type
+		{
+		};
+
+		template <dimensional_scalar U, std::size_t S, dimensional_scalar T>
+		requires std::convertible_to<U, T>
+		struct valid_vector_component<view_vector<U, S>, T> : std::true_type
+		{
+		};
+
 		template <dimensional_scalar U, std::size_t C, dimensional_scalar T>
 		requires std::convertible_to<U, T>
 		struct valid_vector_component<basic_vector<U, C>, T> : std::true_type
-- 
2.43.0


From b476f052154b73613c365b3cd6de0e2499d2c130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:10 +0000
Subject: [PATCH 06/16] fix: set() must read arguments that refer to the
 destination before writing

---
 include/dsga.hxx | 50 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 1d652a8..795296a 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1825,10 +1825,12 @@ namespace dsga
 		requires Writable && Mutable && (sizeof...(Args) == Count) && (std::convertible_to<Args, T> &&...)
 		constexpr void set(Args ...args) noexcept
 		{
-			[&]<std::size_t ...Js, typename ...As>(std::index_sequence<Js ...>, As ...same_args) noexcept
+			// an argument might refer to this storage, so get all the values before writing any of them
+			const T values[Count] = { static_cast<T>(args)... };
+			[&]<std::size_t ...Js>(std::index_sequence<Js ...>) noexcept
 			{
-				((store[Js] = static_cast<T>(same_args)),...);
-			}(std::make_index_sequence<Count>{}, args...);
+				((store[Js] = values[Js]),...);
+			}(std::make_index_sequence<Count>{});
 		}
 
 		constexpr void swap(storage_wrapper &sw) noexcept requires Writable && Mutable	{ store.swap(sw.store); 	}
@@ -1968,10 +1970,12 @@ namespace dsga
 		{
 			dsga_constexpr_assert(store != nullptr, "view pointer is nullptr");
 			T *mstore = const_cast<T *>(store);
-			[&] <std::size_t ...Js, typename ...As>(std::index_sequence<Js ...>, As ...same_args) noexcept
+			// an argument might refer to this storage, so get all the values before writing any of them
+			const T values[Count] = { static_cast<T>(args)... };
+			[&] <std::size_t ...Js>(std::index_sequence<Js ...>) noexcept
 			{
-				((mstore[Js] = static_cast<T>(same_args)), ...);
-			}(std::make_index_sequence<Count>{}, args...);
+				((mstore[Js] = values[Js]), ...);
+			}(std::make_index_sequence<Count>{});
 		}
 
 		constexpr void swap(view_wrapper &sw) requires Writable && Mutable
@@ -2968,7 +2972,10 @@ namespace dsga
 			// these Is are likely not sequential as they are in indexable order,
 			// and we are accessing the internal storage directly. we are not using
 			// the indirection built into indexed_vector::operator []() for this function.
-			((base[Is] = static_cast<T>(args)), ...);
+			// an argument might refer to this storage, so get all the values before writing any of them.
+			const T values[Count] = { static_cast<T>(args)... };
+			std::size_t i = 0;
+			((base[Is] = values[i++]), ...);
 		}
 	};
 
@@ -3188,7 +3195,10 @@ namespace dsga
 			// and we are accessing the view storage directly. we are not using
 			// the indirection built into indexed_view::operator []() for this function.
 			T *mbase = const_cast<T *>(base);
-			((mbase[Is] = static_cast<T>(args)), ...);
+			// an argument might refer to this storage, so get all the values before writing any of them.
+			const T values[Count] = { static_cast<T>(args)... };
+			std::size_t i = 0;
+			((mbase[Is] = values[i++]), ...);
 		}
 	};
 
@@ -3873,9 +3883,11 @@ namespace dsga
 		requires Writable && (sizeof...(Args) == Count) && (std::convertible_to<Args, T> && ...)
 		constexpr void set(Args ...args) noexcept
 		{
+			// an argument might refer to this storage, so get all the values before writing any of them
+			const T values[Count] = { static_cast<T>(args)... };
 			[&]<std::size_t ...Js>(std::index_sequence<Js ...>) noexcept
 			{
-				((base[Js] = static_cast<T>(args)), ...);
+				((base[Js] = values[Js]), ...);
 			}(std::make_index_sequence<Count>{});
 		}
 	};
@@ -4152,9 +4164,11 @@ namespace dsga
 		requires Writable && (sizeof...(Args) == Count) && (std::convertible_to<Args, T> && ...)
 		constexpr void set(Args ...args) noexcept
 		{
+			// an argument might refer to this storage, so get all the values before writing any of them
+			const T values[Count] = { static_cast<T>(args)... };
 			[&]<std::size_t ...Js>(std::index_sequence<Js ...>) noexcept
 			{
-				((base[Js] = static_cast<T>(args)), ...);
+				((base[Js] = values[Js]), ...);
 			}(std::make_index_sequence<Count>{});
 		}
 	};
@@ -4654,9 +4668,11 @@ namespace dsga
 		requires Writable && (sizeof...(Args) == Count) && (std::convertible_to<Args, T> && ...)
 		constexpr void set(Args ...args) noexcept
 		{
+			// an argument might refer to this storage, so get all the values before writing any of them
+			const T values[Count] = { static_cast<T>(args)... };
 			[&]<std::size_t ...Js>(std::index_sequence<Js ...>) noexcept
 			{
-				((base[Js] = static_cast<T>(args)), ...);
+				((base[Js] = values[Js]), ...);
 			}(std::make_index_sequence<Count>{});
 		}
 	};
@@ -5040,9 +5056,11 @@ namespace dsga
 		requires Writable && Mutable && (sizeof...(Args) == Count) && (std::convertible_to<Args, T> && ...)
 		constexpr void set(Args ...args) noexcept
 		{
+			// an argument might refer to this storage, so get all the values before writing any of them
+			const T values[Count] = { static_cast<T>(args)... };
 			[&]<std::size_t ...Js>(std::index_sequence<Js ...>) noexcept
 			{
-				((base[Js] = static_cast<T>(args)), ...);
+				((base[Js] = values[Js]), ...);
 			}(std::make_index_sequence<Count>{});
 		}
 	};
@@ -5310,9 +5328,11 @@ namespace dsga
 		requires Writable && Mutable && (sizeof...(Args) == Count) && (std::convertible_to<Args, T> && ...)
 		constexpr void set(Args ...args) noexcept
 		{
+			// an argument might refer to this storage, so get all the values before writing any of them
+			const T values[Count] = { static_cast<T>(args)... };
 			[&]<std::size_t ...Js>(std::index_sequence<Js ...>) noexcept
 			{
-				((base[Js] = static_cast<T>(args)), ...);
+				((base[Js] = values[Js]), ...);
 			}(std::make_index_sequence<Count>{});
 		}
 	};
@@ -5800,9 +5820,11 @@ namespace dsga
 		requires Writable && Mutable && (sizeof...(Args) == Count) && (std::convertible_to<Args, T> && ...)
 		constexpr void set(Args ...args) noexcept
 		{
+			// an argument might refer to this storage, so get all the values before writing any of them
+			const T values[Count] = { static_cast<T>(args)... };
 			[&]<std::size_t ...Js>(std::index_sequence<Js ...>) noexcept
 			{
-				((base[Js] = static_cast<T>(args)), ...);
+				((base[Js] = values[Js]), ...);
 			}(std::make_index_sequence<Count>{});
 		}
 	};
-- 
2.43.0


From 9f98fc501143626553c48d3802979d72d8ce6c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:28 +0000
Subject: [PATCH 07/16] fix: modf() must not lose the fraction when both
 arguments are the same vector

---
 include/dsga.hxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 795296a..31f1d10 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -7806,12 +7806,12 @@ namespace dsga
 		[[nodiscard]] constexpr auto modf(const vector_base<W1, T, C, D1> &arg,
 										  vector_base<W2, T, C, D2> &i) noexcept
 		{
-			if constexpr (C == 1)
-				i.as_derived() = basic_vector<T, 1>(trunc(arg));
-			else
-				i.as_derived() = trunc(arg);
+			// i might refer to the same storage as arg, so get all the values before writing any of them
+			const auto integral_part = basic_vector<T, C>(trunc(arg));
+			const auto fractional_part = machinery::apply_unitype_make(arg, integral_part, modf_op);
+			i.as_derived() = integral_part;
 
-			return machinery::apply_unitype_make(arg, i, modf_op);
+			return fractional_part;
 		}
 
 		template <floating_point_scalar T>
-- 
2.43.0


From 9cb47ecbbc7eea1ec2708f54f6aa673b79f93c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:03 +0000
Subject: [PATCH 08/16] fix: lessThan() and friends compare 64-bit integers
 exactly instead of through double

---
 include/dsga.hxx | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 31f1d10..ba2c633 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -7058,7 +7058,11 @@ namespace dsga
 
 		constexpr inline auto less_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isless(x, y);
+			// std::isless() would convert integers to double, which can't tell large 64-bit values apart
+			if constexpr (floating_point_scalar<T>)
+				return std::isless(x, y);
+			else
+				return x < y;
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7077,7 +7081,11 @@ namespace dsga
 
 		constexpr inline auto less_equal_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::islessequal(x, y);
+			// std::islessequal() would convert integers to double, which can't tell large 64-bit values apart
+			if constexpr (floating_point_scalar<T>)
+				return std::islessequal(x, y);
+			else
+				return x <= y;
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7096,7 +7104,11 @@ namespace dsga
 
 		constexpr inline auto greater_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isgreater(x, y);
+			// std::isgreater() would convert integers to double, which can't tell large 64-bit values apart
+			if constexpr (floating_point_scalar<T>)
+				return std::isgreater(x, y);
+			else
+				return x > y;
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7115,7 +7127,11 @@ namespace dsga
 
 		constexpr inline auto greater_equal_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isgreaterequal(x, y);
+			// std::isgreaterequal() would convert integers to double, which can't tell large 64-bit values apart
+			if constexpr (floating_point_scalar<T>)
+				return std::isgreaterequal(x, y);
+			else
+				return x >= y;
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
-- 
2.43.0


From 744c8abb81e78aa52ce9d45edd988b7bce1d92ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:00 +0000
Subject: [PATCH 09/16] fix: abs() must clear the sign of negative infinity and
 negative zero

---
 include/dsga.hxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index ba2c633..005e987 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1294,10 +1294,11 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T abs(T value) noexcept
 			{
-				if (!detail::isnormal_or_subnormal(value))
+				if (isnan(value))
 					return value;
 
-				return relaxed::abs(value);
+				// subtracting from zero also clears the sign of a negative zero
+				return (value <= T(0)) ? (T(0) - value) : value;
 			}
 
 			// don't know what to do if someone tries to negate the most negative number.
@@ -1313,10 +1314,7 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T fabs(T value) noexcept
 			{
-				if (!detail::isnormal_or_subnormal(value))
-					return value;
-
-				return relaxed::fabs(value);
+				return abs(value);
 			}
 
 			template <std::integral T>
-- 
2.43.0


From f20409aca9819afa721d4f29841780f79587ef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:00 +0000
Subject: [PATCH 10/16] fix: fract() of a value too large to have a fraction is
 zero, not the value

---
 include/dsga.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 005e987..3555ec2 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1043,9 +1043,13 @@ namespace dsga
 				constexpr T constexpr_fract(T value) noexcept
 				{
 					// screen out unnecessary input
-					if (fails_fractional_input_constraints(value))
+					if (!isnormal_or_subnormal(value))
 						return value;
 
+					// no value that can't even have a fractional part
+					if (fails_fractional_input_constraints(value))
+						return T(0);
+
 					return relaxed::fract(value);
 				}
 
-- 
2.43.0


From 5557d04a3c35b8f9626a8c5ed69458549c7e6892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:03 +0000
Subject: [PATCH 11/16] fix: round() and roundEven() must not round the largest
 value below one half up

---
 include/dsga.hxx | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 3555ec2..47b5c12 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -602,14 +602,20 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T round(T value) noexcept
 			{
-				// zero could be handled either place, but here it is with the negative values.
+				const T truncated_value = trunc(value);
+
+				// exact, while adding one half to the value first could round up to the next integer
+				const T remainder = value - truncated_value;
 
 				// positive value, taking care of halfway case.
-				if (value > T(0))
-					return trunc(value + T(0.5f));
+				if (remainder >= T(0.5f))
+					return truncated_value + T(1.0f);
 
-				// negative or zero value, taking care of halfway case.
-				return trunc(value - T(0.5f));
+				// negative value, taking care of halfway case.
+				if (remainder <= T(-0.5f))
+					return truncated_value - T(1.0f);
+
+				return truncated_value;
 			}
 
 			//
@@ -647,20 +653,13 @@ namespace dsga
 			{
 				T trunc_value = trunc(value);
 				bool is_even = (fmod(trunc_value, T(2)) == T(0));
-				bool is_halfway = (fract(value) == T(0.5));
+				bool is_halfway = (abs(value - trunc_value) == T(0.5f));
 
 				// the special case
 				if (is_halfway && is_even)
 					return trunc_value;
 
-				// zero could be handled either place, but here it is with the negative values.
-
-				// positive value, taking care of halfway case.
-				if (value > T(0))
-					return trunc(value + T(0.5f));
-
-				// negative or zero value, taking care of halfway case.
-				return trunc(value - T(0.5f));
+				return round(value);
 			}
 
 			//
-- 
2.43.0


From 58015e512225f2b699e3ad356adb292b56745094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:54 +0000
Subject: [PATCH 12/16] fix: vector * matrix accepts integral vectors, as its
 constraint says

The operator's constraint takes any non-boolean vector, but its body called
dot(), which is restricted to floating-point operands, so ivec3 * mat3 was
selected and then failed to compile. matrix * ivec3 already worked.
---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 47b5c12..c49c02e 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -9179,7 +9179,7 @@ namespace dsga
 	{
 		return [&]<std::size_t ...Is>(std::index_sequence <Is...>) noexcept
 		{
-			return basic_vector{ functions::dot(lhs, rhs[Is])... };
+			return basic_vector{ functions::innerProduct(lhs, rhs[Is])... };
 		}(std::make_index_sequence<C>{});
 	}
 
-- 
2.43.0


From edc354edefe09c0bd5fbf467280a7b819638d644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 13/16] fix: cross() of two vectors or two views usable in
 constant expressions

---
 include/dsga.hxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index c49c02e..dc06f49 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -8327,14 +8327,20 @@ namespace dsga
 		[[nodiscard]] constexpr auto cross(const basic_vector<T1, 3> &a,
 										   const basic_vector<T2, 3> &b) noexcept
 		{
-			return (a.yzx * b.zxy) - (a.zxy * b.yzx);
+			// operator [] instead of swizzles, since swizzles can't be read in constant expressions
+			return basic_vector((a[1] * b[2]) - (b[1] * a[2]),
+								(a[2] * b[0]) - (b[2] * a[0]),
+								(a[0] * b[1]) - (b[0] * a[1]));
 		}
 
 		template <bool M1, floating_point_scalar T1, bool M2, floating_point_scalar T2>
 		[[nodiscard]] constexpr auto cross(const basic_view<M1, T1, 3> &a,
 										   const basic_view<M2, T2, 3> &b) noexcept
 		{
-			return (a.yzx * b.zxy) - (a.zxy * b.yzx);
+			// operator [] instead of swizzles, since swizzles can't be read in constant expressions
+			return basic_vector((a[1] * b[2]) - (b[1] * a[2]),
+								(a[2] * b[0]) - (b[2] * a[0]),
+								(a[0] * b[1]) - (b[0] * a[1]));
 		}
 
 		template <bool W, floating_point_scalar T, std::size_t C, typename D>
-- 
2.43.0


From b958c0a9b2f1fc7c447611e1f76dfa05e3e29401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 14/16] fix: inversesqrt() of very small or very large doubles
 must not be NaN

---
 include/dsga.hxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index dc06f49..41d4ded 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1219,6 +1219,16 @@ namespace dsga
 						return -std::numeric_limits<T>::quiet_NaN();
 					}
 
+					if constexpr (sizeof(T) == 8)
+					{
+						// the error-free products used for double need headroom in the exponent range,
+						// so scale extreme values by a power of 4, which is exact
+						if (value < T(0x1p-900))
+							return relaxed::rsqrt(value * T(0x1p200)) * T(0x1p100);
+						else if (value > T(0x1p900))
+							return relaxed::rsqrt(value * T(0x1p-200)) * T(0x1p-100);
+					}
+
 					return relaxed::rsqrt(value);
 				}
 
-- 
2.43.0


From 4b656f12f43e4ac735e413d8d8bb32e3d671e920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 15/16] fix: fast_inversesqrt() of subnormal doubles must not
 be off by orders of magnitude

---
 include/dsga.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 41d4ded..19931a3 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1288,6 +1288,13 @@ namespace dsga
 						return -std::numeric_limits<T>::quiet_NaN();
 					}
 
+					if constexpr (sizeof(T) == 8)
+					{
+						// the initial approximation relies on the exponent bits of a normal value
+						if (value < std::numeric_limits<T>::min())
+							return relaxed::fast_rsqrt(value * T(0x1p54)) * T(0x1p27);
+					}
+
 					return relaxed::fast_rsqrt(value);
 				}
 
-- 
2.43.0


From 675ab1660c8d6760b4fc33f272f007e3f078ccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 16/16] fix: sqrt() of extreme doubles in constant expressions

---
 include/dsga.hxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 19931a3..e0945e4 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1156,6 +1156,16 @@ namespace dsga
 						return -std::numeric_limits<T>::quiet_NaN();
 					}
 
+					if constexpr (sizeof(T) == 8)
+					{
+						// the error-free products used for double need headroom in the exponent range,
+						// so scale extreme values by a power of 4, which is exact
+						if (value < T(0x1p-900))
+							return relaxed::sqrt(value * T(0x1p200)) * T(0x1p-100);
+						else if (value > T(0x1p900))
+							return relaxed::sqrt(value * T(0x1p-200)) * T(0x1p100);
+					}
+
 					return relaxed::sqrt(value);
 				}
 
-- 
2.43.0

