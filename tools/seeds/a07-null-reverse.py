property = "A07"
needs = "range iteration over the end pointer of a view that was never attached to storage (view.end() before view.begin())"
breaks = "the mutable end() of a view no longer checks for a null pointer, so a loop that starts from end() walks from a bogus address"
edits = [("""			dsga_constexpr_assert(store != nullptr, "view pointer is nullptr");
			return const_cast<T *>(store) + Count;""", """			return std::to_address(const_cast<T *>(store)) + Count;""")]
pre = """
#include <csetjmp>
#include <csignal>
static sigjmp_buf jb;
static void on_abort(int) { siglongjmp(jb, 1); }
"""
demo = """
	std::signal(SIGABRT, on_abort);
	basic_view<true, float, 3> v;
	volatile bool stopped = false;
	if (sigsetjmp(jb, 1) == 0) { auto p = v.end(); volatile void *keep = &*p - 3; (void)keep; }
	else stopped = true;
	CHECK(stopped);
"""
