property = 'B03'
needs = 'the old value of a postfix decrement of a view, used after the decrement'
breaks = 'the old value returned by postfix -- on a view is read from the storage after the decrement'
edits = [('\t\tbasic_vector<T, C> value(arg);\n\t\targ -= T(1);\n\t\treturn value;\n', '\t\tconst D previous(arg.as_derived());\n\t\targ -= T(1);\n\t\treturn basic_vector<T, C>(previous);\n')]
demo = '''
	int d[3] = {1, 2, 3};
	basic_view<true, int, 3> v(d);
	auto o = v--;
	CHECK(o[0] == 1 && o[1] == 2 && o[2] == 3 && d[0] == 0 && d[2] == 2);
	auto q = v.zx--;
	CHECK(q[0] == 2 && q[1] == 0 && d[2] == 1);
'''
