// Conformance driver for N01: tagged pointers.
#include "vsched.h"
#define std vstd
#include <asyncpp/ptr_tag.h>
#undef std
#include "harness.h"

using namespace asyncpp;
namespace {
	template<size_t A>
	struct alignas(A) T {
		char c[A];
	};
	enum class Tag : size_t {};
	enum class Small : unsigned char {};
	struct Entry {
		size_t al, tag;
		bool accepted;
		void* (*pack)(uintptr_t);
		void* (*pack_const)(uintptr_t);
		void* (*pack_enum)(uintptr_t);
		void* (*pack_enum_const)(uintptr_t);
		std::pair<uintptr_t, size_t> (*unpack[5])(void*);
	};
	template<size_t A>
	T<A>* ptr(uintptr_t a) { return reinterpret_cast<T<A>*>(a); }
	template<size_t A, size_t ID>
	constexpr bool fits = requires(T<A>* p) { ptr_tag<ID>(p); };
	template<size_t A, size_t ID>
	constexpr bool fits_const = requires(const T<A>* p) { ptr_tag<ID>(p); };
	template<typename X>
	std::pair<uintptr_t, size_t> pr(X x) { return {reinterpret_cast<uintptr_t>(x.first), (size_t)x.second}; }
	template<size_t A, size_t ID>
	Entry entry() {
		Entry e{};
		e.al = A;
		e.tag = ID;
		static_assert(fits<A, ID> == fits_const<A, ID>);
		e.accepted = fits<A, ID>;
		if constexpr (fits<A, ID>) {
			e.pack = [](uintptr_t a) { return ptr_tag<ID>(ptr<A>(a)); };
			e.pack_const = [](uintptr_t a) { return const_cast<void*>(ptr_tag<ID>(const_cast<const T<A>*>(ptr<A>(a)))); };
			e.pack_enum = [](uintptr_t a) { return ptr_tag<static_cast<Tag>(ID)>(ptr<A>(a)); };
			e.pack_enum_const = [](uintptr_t a) { return const_cast<void*>(ptr_tag<static_cast<Small>(ID)>(const_cast<const T<A>*>(ptr<A>(a)))); };
		}
		e.unpack[0] = [](void* p) { return pr(ptr_untag<T<A>>(p)); };
		e.unpack[1] = [](void* p) { return pr(ptr_untag<T<A>>(const_cast<const void*>(p))); };
		e.unpack[2] = [](void* p) { return pr(ptr_untag<T<A>, Tag>(p)); };
		e.unpack[3] = [](void* p) { return pr(ptr_untag<T<A>, size_t>(const_cast<const void*>(p))); };
		e.unpack[4] = [](void* p) { return pr(ptr_untag<T<A>, Tag>(const_cast<const void*>(p))); };
		return e;
	}
	// all tags up to twice the alignment, less for big ones
	template<size_t A, size_t... I>
	void add(std::vector<Entry>& v, std::index_sequence<I...>) { (v.push_back(entry<A, I>()), ...); }
	std::vector<Entry> make() {
		std::vector<Entry> v;
		add<1>(v, std::make_index_sequence<4>());
		add<2>(v, std::make_index_sequence<6>());
		add<4>(v, std::make_index_sequence<10>());
		add<8>(v, std::make_index_sequence<18>());
		add<16>(v, std::make_index_sequence<34>());
		add<64>(v, std::make_index_sequence<68>());
		add<4096>(v, std::index_sequence<0, 1, 64, 127, 128, 255, 2048, 4095, 4096, 4097, 8192>());
		return v;
	}
	struct Word {
		size_t al, tag;
		void* p;
	};
	template<typename... X>
	void least(int, std::vector<int> als) { VSEV("least").k("als", als).k("m", min_alignof<X...>()); }
	void body(vs::Case& c) {
		auto& r = c.rng;
		vs::set_case("{\"k\":\"ptrtag\"}", "pointers and tags, seed " + std::to_string(r.s));
		static const std::vector<Entry> entries = make();
		std::vector<Word> words;
		std::vector<uintptr_t> addr;
		for (int i = 0; i < 3; i++) {
			uintptr_t a = r.next();
			switch (r(6)) {
			case 0: a = 0; break;
			case 1: a &= 0xffffffff; break;
			case 2: a = ~(uintptr_t)0 << r(64); break;
			case 3: a = (uintptr_t)1 << r(64); break;
			case 4: a = reinterpret_cast<uintptr_t>(&words) & 0xffffff; break;
			}
			addr.push_back(a);
		}
		const size_t favourite = (size_t)1 << r(7);
		int n = c.size == 0 ? 20 : 70;
		for (int k = 0; k < n; k++) {
			auto& e = entries[(size_t)r((int)entries.size())];
			const int what = r(10);
			if (what < 4) {
				if (words.size() == 24 || (e.al != favourite && r(2))) continue;
				if (!e.accepted) {
					VSEV("accepts").k("al", e.al).k("t", e.tag).k("v", false);
					continue;
				}
				auto a = addr[(size_t)r(3)] & ~(uintptr_t)(e.al - 1);
				void* p = nullptr;
				switch (e.tag < 256 ? r(4) : r(3)) {
				case 0: p = e.pack(a); break;
				case 1: p = e.pack_const(a); break;
				case 2: p = e.pack_enum(a); break;
				case 3: p = e.pack_enum_const(a); break;
				}
				std::vector<int> same;
				for (size_t i = 0; i < words.size(); i++)
					if (words[i].p == p) same.push_back((int)i + 1);
				words.push_back({e.al, e.tag, p});
				VSEV("pack").k("i", words.size()).k("al", e.al).k("p", std::to_string(a)).k("t", e.tag).k("same", same);
			} else if (what < 8) {
				if (words.empty()) continue;
				auto i = (size_t)r((int)words.size());
				auto& w = words[i];
				for (auto& e : entries)
					if (e.al == w.al) {
						auto [p, t] = e.unpack[r(5)](w.p);
						VSEV("unpack").k("i", i + 1).k("p", std::to_string(p)).k("t", t);
						break;
					}
			} else if (what == 8) {
				if (words.empty()) continue;
				auto i = (size_t)r((int)words.size());
				auto& w = words[i];
				if (w.al >= 16 && w.tag < 16) VSEV("tag").k("i", i + 1).k("m", 16).k("t", (ptr_get_tag<T<64>, T<16>, T<4096>>(w.p)));
				if (w.al >= 4 && w.tag < 4) VSEV("tag").k("i", i + 1).k("m", 4).k("t", (ptr_get_tag<T<4>, T<16>>(w.p)));
				if (w.al >= 8 && w.tag < 8) VSEV("tag").k("i", i + 1).k("m", 8).k("t", (ptr_get_tag<T<16>, T<64>, T<8>>(w.p)));
				if (w.al >= 2 && w.tag < 2) VSEV("tag").k("i", i + 1).k("m", 2).k("t", (ptr_get_tag<T<2>>(w.p)));
			} else {
				VSEV("accepts").k("al", e.al).k("t", e.tag).k("v", e.accepted);
				switch (r(4)) {
				case 0: least<T<8>, T<2>, T<4096>>(0, {8, 2, 4096}); break;
				case 1: least<T<16>>(0, {16}); break;
				case 2: least<T<1>, T<4>>(0, {1, 4}); break;
				case 3: least<T<64>, T<32>>(0, {64, 32}); break;
				}
			}
		}
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
