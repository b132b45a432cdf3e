property = 'C01'
needs = 'a double matrix made from one scalar that float cannot hold exactly'
breaks = 'the diagonal constructor takes its scalar through float'
edits = [('''				((columns[Is][Is] = static_cast<T>(arg)), ...);
''', '''				const auto value = static_cast<float>(arg);
				((columns[Is][Is] = static_cast<T>(value)), ...);
''')]
demo = '''
	dmat3 m(0.1);
	CHECK(m[0][0] == 0.1 && m[1][1] == 0.1 && m[1][0] == 0.0);
	dmat2 n(16777217);
	CHECK(n[1][1] == 16777217.0);
'''
