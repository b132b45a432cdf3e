property = 'B06'
needs = 'a temporary three-component view assigned from a swizzle whose order differs from the storage order'
breaks = 'assigning to a temporary view takes the components of the source in storage order'
edits = [('''		constexpr basic_view &operator =(const vector_base<W, U, Count, D> &other) && noexcept
		{
			set(other[0], other[1], other[2]);
''', '''		constexpr basic_view &operator =(const vector_base<W, U, Count, D> &other) && noexcept
		{
			const auto *source = other.data();
			set(source[0], source[1], source[2]);
''')]
demo = '''
	float d[3] = {0, 0, 0};
	vec4 s(1, 2, 3, 4);
	basic_view<true, float, 3> keep(d);
	keep = s.zyx;
	CHECK(d[0] == 3 && d[1] == 2 && d[2] == 1);
	(basic_view<true, float, 3>(d)) = s.zxy;
	CHECK(d[0] == 3 && d[1] == 1 && d[2] == 2);
'''
