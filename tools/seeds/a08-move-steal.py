property = 'A08'
needs = 'a view_vector that was move-constructed from one that is changed or dies afterwards'
breaks = 'move construction keeps viewing the storage of the source'
edits = [('\t\tconstexpr view_vector(view_vector &&v) noexcept : basic_view<Mutable, T, Size>(store)\n', '\t\tconstexpr view_vector(view_vector &&v) noexcept : basic_view<Mutable, T, Size>(std::move(v))\n')]
demo = '''
	view_vector<float, 3> a(1.0f, 2.0f, 3.0f);
	view_vector<float, 3> b(std::move(a));
	a[0] = 7.0f;
	CHECK(b[0] == 1.0f && b[1] == 2.0f && b[2] == 3.0f);
	b[1] = 9.0f;
	CHECK(a[1] == 2.0f);
'''
