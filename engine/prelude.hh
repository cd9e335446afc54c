// included before every analysed C++ source: the algorithms that take a predicate, as plain loops the extractor inlines
#include <algorithm>
#include <numeric>
namespace std {
extern "C" void vk_mark(const void *);
template <class I, class P> inline I vk_find_if(I f, I l, P p) { for (; f != l; ++f) if (p(*f)) return f; return l; }
template <class I, class P> inline I vk_find_if_not(I f, I l, P p) { for (; f != l; ++f) if (!p(*f)) return f; return l; }
template <class I, class P> inline bool vk_any_of(I f, I l, P p) { for (; f != l; ++f) if (p(*f)) return true; return false; }
template <class I, class P> inline bool vk_all_of(I f, I l, P p) { for (; f != l; ++f) if (!p(*f)) return false; return true; }
template <class I, class P> inline bool vk_none_of(I f, I l, P p) { for (; f != l; ++f) if (p(*f)) return false; return true; }
template <class I, class P> inline typename iterator_traits<I>::difference_type vk_count_if(I f, I l, P p) { typename iterator_traits<I>::difference_type n = 0; for (; f != l; ++f) if (p(*f)) ++n; return n; }
template <class I, class P> inline P vk_for_each(I f, I l, P p) { for (; f != l; ++f) p(*f); return p; }
template <class I, class P> inline I vk_remove_if(I f, I l, P p) { for (I i = f; i != l; ++i) if (p(*i)) vk_mark(&*i); return remove(f, l, *f); }
}
#define find_if vk_find_if
#define find_if_not vk_find_if_not
#define any_of vk_any_of
#define all_of vk_all_of
#define none_of vk_none_of
#define count_if vk_count_if
#define for_each vk_for_each
#define remove_if vk_remove_if
