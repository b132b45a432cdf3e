property = 'A02'
needs = 'a swizzle of a view that repeats a component and has fewer components than the view'
breaks = 'such view swizzles (v.xx of a four-component view) become writable'
edits = [('vector_base<M && writable_swizzle<Size, Count, Is...>, T, Count, indexed_view<M, T, Size, Count, Is...>>', 'vector_base<M && (Count < Size || writable_swizzle<Size, Count, Is...>), T, Count, indexed_view<M, T, Size, Count, Is...>>'),
 ('static constexpr bool Writable = writable_swizzle<Size, Count, Is...>;', 'static constexpr bool Writable = Count < Size || writable_swizzle<Size, Count, Is...>;', 1)]
demo = '''#include "dsga.hxx"
using namespace dsga;
template <class V> concept W = requires(V &v) { v.yxy = vec3(1); };
template <class V> concept X = requires(V &v) { v.zz = vec2(1); };
template <class V> concept Y = requires(V &v) { v.zyx = vec3(1); };
using V4 = basic_view<true, float, 4>;
int main() { return W<V4> || X<V4> || !Y<V4>; }
'''
