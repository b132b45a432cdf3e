property = "A09"
needs = "a shift-assignment by a one-component vector or swizzle that is a component of the vector being shifted"
breaks = "the shift count is taken by reference and the destination is updated component by component, so later components are shifted by the already shifted count"
edits = [("""		constexpr void apply_multitype_modify(vector_base<W, T, C, D> &lhs,
											  U rhs,
											  BinOp &op) noexcept
		{
			[&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
			{
				lhs.set( op(lhs[Is], rhs)... );""", """		constexpr void apply_multitype_modify(vector_base<W, T, C, D> &lhs,
											  const U &rhs,
											  BinOp &op) noexcept
		{
			[&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
			{
				((lhs[Is] = static_cast<T>(op(lhs[Is], rhs))), ...);""")]
demo = """
	ivec3 v(2, 3, 5);
	v <<= v.x;
	CHECK(v[0] == 8 && v[1] == 12 && v[2] == 20);
	uvec4 q(1u, 2u, 3u, 4u);
	q.wzy <<= q.w;
	CHECK(q[3] == 64u && q[2] == 48u && q[1] == 32u && q[0] == 1u);
"""
