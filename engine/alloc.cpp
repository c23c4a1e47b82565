// Single threaded size-class allocator: the analysis allocates many small nodes.
#include <cstdlib>
#include <cstddef>
#include <new>
namespace
{
	constexpr size_t maxSize = 512, step = 16;
	struct Node { Node* next; };
	Node* lists[maxSize / step + 1];
	char *cur, *end;
	inline void* take(size_t c)
	{
		if (Node* n = lists[c]) { lists[c] = n->next; return n; }
		size_t b = c * step + step; // header keeps the class
		if (cur + b > end)
		{
			cur = (char*)aligned_alloc(4096, 1 << 20);
			if (!cur) throw std::bad_alloc();
			end = cur + (1 << 20);
		}
		char* p = cur + step;
		cur += b;
		((size_t*)p)[-1] = c;
		return p;
	}
}
void* operator new(size_t n)
{
	size_t c = (n + step - 1) / step;
	if (!c) c = 1;
	if (c <= maxSize / step) return take(c);
	char* p = (char*)malloc(n + step);
	if (!p) throw std::bad_alloc();
	p += step;
	((size_t*)p)[-1] = ~size_t(0);
	return p;
}
void operator delete(void* p) noexcept
{
	if (!p) return;
	size_t c = ((size_t*)p)[-1];
	if (c == ~size_t(0)) { free((char*)p - step); return; }
	Node* n = (Node*)p;
	n->next = lists[c]; lists[c] = n;
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
