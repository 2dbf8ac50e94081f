// Executable reference model of index spaces, layouts and traversal orders. Plain loops and index arithmetic over
// run-time data; shares no code with noarr.
#ifndef VERIF_MODEL_HPP
#define VERIF_MODEL_HPP

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace model {

using i64 = std::int64_t;

constexpr int NK = 6;
constexpr char KEYS[NK + 1] = "ijklmn"; // dimensions that identify an element

struct Key {
	i64 v[NK];
	friend bool operator<(const Key &a, const Key &b) { return std::lexicographical_compare(a.v, a.v + NK, b.v, b.v + NK); }
	friend bool operator==(const Key &a, const Key &b) { return std::equal(a.v, a.v + NK, b.v); }
};

inline std::string show(const Key &k) {
	std::string s = "(";
	for (int i = 0; i < NK; i++)
		if (k.v[i] >= 0)
			s += std::string(s.size() > 1 ? "," : "") + KEYS[i] + "=" + std::to_string(k.v[i]);
	return s + ")";
}

struct Vals { // values of dimensions by name; -1 = not present
	i64 a[128];
	Vals() { std::fill(a, a + 128, -1); }
	i64 &operator[](char c) { return a[static_cast<unsigned char>(c)]; }
	i64 operator[](char c) const { return a[static_cast<unsigned char>(c)]; }
};

struct Ent {
	Key k;
	i64 off; // byte offset of the element in the data structure, -1 if not modelled
};

class Space {
public:
	struct D {
		char name;
		i64 len;
	};

private:
	std::vector<D> dims_; // outermost first
	// maps the values of the current dimensions to those one operation earlier; false = no such element
	std::vector<std::function<bool(Vals &)>> ops_;
	std::size_t sealed_ = 0;
	bool is_sealed_ = false;
	std::vector<std::pair<char, i64>> strides_;
	std::function<i64(const Vals &)> custom_off_;
	i64 size_;

	std::size_t pos(char d) const {
		for (std::size_t i = 0; i < dims_.size(); i++)
			if (dims_[i].name == d)
				return i;
		std::fprintf(stderr, "model: no dimension %c\n", d);
		std::abort();
	}

public:
	i64 elem;
	bool exact = true; // offsets are determined by the documentation (not so inside tuples: padding)

	explicit Space(i64 scalar_size) : size_(scalar_size), elem(scalar_size) {}

	i64 len(char d) const { return dims_[pos(d)].len; }
	i64 size() const { return size_; }
	i64 top_len() const { return dims_.front().len; }
	char top() const { return dims_.front().name; }
	bool has(char d) const {
		for (auto &x : dims_)
			if (x.name == d)
				return true;
		return false;
	}

	// ---- layout ----
	Space &vec(char d, i64 n) {
		dims_.insert(dims_.begin(), D{d, n});
		strides_.emplace_back(d, size_);
		size_ *= n;
		return *this;
	}
	Space &bcast(char d, i64 n) {
		dims_.insert(dims_.begin(), D{d, n});
		strides_.emplace_back(d, 0);
		return *this;
	}
	// tuple of scalars of the given sizes
	Space &tuple(char d, std::vector<i64> sizes) {
		exact = false;
		dims_.insert(dims_.begin(), D{d, static_cast<i64>(sizes.size())});
		i64 sum = 0;
		std::vector<i64> offs;
		for (const i64 s : sizes) {
			offs.push_back(sum);
			sum += s;
		}
		custom_off_ = [d, offs](const Vals &v) { return offs[v[d]]; };
		size_ = sum;
		return *this;
	}
	// tuple of vectors in dimension w: element sizes and lengths per component
	Space &tuple_vec(char d, char w, std::vector<i64> sizes, std::vector<i64> lens) {
		exact = false;
		const i64 m = *std::max_element(lens.begin(), lens.end());
		dims_.insert(dims_.begin(), D{w, m});
		dims_.insert(dims_.begin(), D{d, static_cast<i64>(sizes.size())});
		std::vector<i64> offs;
		i64 sum = 0;
		for (std::size_t i = 0; i < sizes.size(); i++) {
			offs.push_back(sum);
			sum += sizes[i] * lens[i];
		}
		custom_off_ = [=](const Vals &v) { return offs[v[d]] + v[w] * sizes[v[d]]; };
		ops_.push_back([=](Vals &v) { return v[w] < lens[v[d]]; });
		size_ = sum;
		return *this;
	}
	// from here on operations belong to the traversal order; keys are the index values at this point
	Space &seal() {
		sealed_ = ops_.size();
		is_sealed_ = true;
		return *this;
	}
	// combined traversal with another structure
	Space &unite(const Space &o) {
		std::vector<D> add;
		for (auto &d : o.dims_)
			if (!has(d.name))
				add.push_back(d);
		dims_.insert(dims_.begin(), add.begin(), add.end());
		return *this;
	}

	// ---- views ----
	Space &slice(char d, i64 start, i64 n) {
		dims_[pos(d)].len = n;
		ops_.push_back([=](Vals &v) { return v[d] += start, true; });
		return *this;
	}
	Space &span(char d, i64 start, i64 end) { return slice(d, start, end - start); }
	Space &shift(char d, i64 start) { return slice(d, start, len(d) - start); }
	Space &step(char d, i64 start, i64 stride) {
		const i64 n = len(d);
		i64 cnt = 0;
		for (i64 x = start; x < n; x += stride)
			cnt++;
		dims_[pos(d)].len = cnt;
		ops_.push_back([=](Vals &v) { return v[d] = v[d] * stride + start, true; });
		return *this;
	}
	Space &reverse(char d) {
		const i64 n = len(d);
		ops_.push_back([=](Vals &v) { return v[d] = n - 1 - v[d], true; });
		return *this;
	}
	Space &fix(char d, i64 x) {
		dims_.erase(dims_.begin() + pos(d));
		ops_.push_back([=](Vals &v) { return v[d] = x, true; });
		return *this;
	}
	Space &hoist(char d) {
		const auto p = pos(d);
		const D x = dims_[p];
		dims_.erase(dims_.begin() + p);
		dims_.insert(dims_.begin(), x);
		return *this;
	}
	Space &reorder(const char *order) {
		std::vector<D> n;
		for (; *order; order++)
			n.push_back(dims_[pos(*order)]);
		if (n.size() != dims_.size())
			std::abort();
		dims_ = n;
		return *this;
	}
	Space &rename(char from, char to) {
		dims_[pos(from)].name = to;
		ops_.push_back([=](Vals &v) { return v[from] = v[to], v[to] = -1, true; });
		return *this;
	}
	Space &swap_names(char a, char b) {
		const auto pa = pos(a), pb = pos(b);
		dims_[pa].name = b;
		dims_[pb].name = a;
		ops_.push_back([=](Vals &v) { return std::swap(v[a], v[b]), true; });
		return *this;
	}
	Space &into_blocks(char d, char major, char minor, i64 b) {
		const auto p = pos(d);
		const i64 n = dims_[p].len;
		dims_[p] = D{major, n / b};
		dims_.insert(dims_.begin() + p + 1, D{minor, b});
		ops_.push_back([=](Vals &v) {
			const i64 x = v[major] * b + v[minor];
			v[major] = v[minor] = -1;
			v[d] = x;
			return true;
		});
		return *this;
	}
	Space &into_blocks_dynamic(char d, char major, char minor, char present, i64 b) {
		const auto p = pos(d);
		const i64 n = dims_[p].len;
		dims_[p] = D{major, (n + b - 1) / b};
		dims_.insert(dims_.begin() + p + 1, D{present, 1});
		dims_.insert(dims_.begin() + p + 1, D{minor, b});
		ops_.push_back([=](Vals &v) {
			const i64 x = v[major] * b + v[minor];
			v[major] = v[minor] = v[present] = -1;
			v[d] = x;
			return x < n;
		});
		return *this;
	}
	// given the number of blocks: blocks of equal (rounded up) length, the last ones short or empty
	Space &into_blocks_count(char d, char major, char minor, char present, i64 c) {
		const auto p = pos(d);
		const i64 n = dims_[p].len, b = (n + c - 1) / c;
		into_blocks_dynamic(d, major, minor, present, b ? b : 1);
		dims_[p].len = c;
		dims_[p + 1].len = b;
		return *this;
	}
	// border dimension: 0 = full blocks, 1 = the remainder as one block
	Space &into_blocks_static(char d, char border, char major, char minor, i64 b) {
		const auto p = pos(d);
		const i64 n = dims_[p].len;
		dims_[p] = D{border, 2};
		dims_.insert(dims_.begin() + p + 1, D{minor, b});
		dims_.insert(dims_.begin() + p + 1, D{major, std::max<i64>(n / b, 1)});
		ops_.push_back([=](Vals &v) {
			const i64 B = v[border], ma = v[major], mi = v[minor];
			v[border] = v[major] = v[minor] = -1;
			if (B == 0) {
				v[d] = ma * b + mi;
				return ma < n / b;
			}
			v[d] = n / b * b + mi;
			return ma < 1 && mi < n % b;
		});
		return *this;
	}
	Space &merge_blocks(char major, char minor, char d) {
		const auto pa = pos(major), pi = pos(minor);
		const i64 ni = len(minor), n = len(major) * ni;
		const auto inner = std::max(pa, pi), outer = std::min(pa, pi);
		dims_[inner] = D{d, n};
		dims_.erase(dims_.begin() + outer);
		ops_.push_back([=](Vals &v) {
			const i64 x = v[d];
			v[d] = -1;
			v[major] = x / ni;
			v[minor] = x % ni;
			return true;
		});
		return *this;
	}
	// Z-order: all index tuples of the merged dimensions sorted by interleaved bits, first dimension most significant
	Space &zcurve(const std::string &ds, char d) {
		std::vector<i64> ls;
		std::size_t inner = 0;
		i64 total = 1;
		for (const char c : ds) {
			ls.push_back(len(c));
			total *= len(c);
			inner = std::max(inner, pos(c));
		}
		std::vector<std::pair<unsigned long long, std::vector<i64>>> pts;
		for (i64 x = 0; x < total; x++) {
			std::vector<i64> p(ds.size());
			i64 r = x;
			for (std::size_t i = 0; i < ds.size(); i++) {
				p[i] = r % ls[i];
				r /= ls[i];
			}
			unsigned long long m = 0;
			for (int bit = 15; bit >= 0; bit--)
				for (std::size_t i = 0; i < ds.size(); i++)
					m = m << 1 | (p[i] >> bit & 1);
			pts.emplace_back(m, p);
		}
		std::sort(pts.begin(), pts.end());
		dims_[inner] = D{d, total};
		for (const char c : ds)
			if (c != d)
				for (std::size_t i = 0; i < dims_.size(); i++)
					if (dims_[i].name == c) {
						dims_.erase(dims_.begin() + i);
						break;
					}
		ops_.push_back([=](Vals &v) {
			const auto p = pts[v[d]].second;
			v[d] = -1;
			for (std::size_t i = 0; i < ds.size(); i++)
				v[ds[i]] = p[i];
			return true;
		});
		return *this;
	}
	// the same for lengths that are multiples of a (a power of two), without enumerating the points within the blocks
	Space &zcurve_blocks(const std::string &ds, char d, i64 a) {
		std::size_t inner = 0;
		i64 total = 1;
		std::vector<i64> ls;
		for (const char c : ds) {
			ls.push_back(len(c) / a);
			total *= len(c);
			inner = std::max(inner, pos(c));
		}
		auto pts = morton(ls);
		dims_[inner] = D{d, total};
		for (const char c : ds)
			if (c != d)
				for (std::size_t i = 0; i < dims_.size(); i++)
					if (dims_[i].name == c) {
						dims_.erase(dims_.begin() + i);
						break;
					}
		ops_.push_back([=](Vals &v) {
			i64 vol = 1;
			for (std::size_t i = 0; i < ds.size(); i++)
				vol *= a;
			const i64 z = v[d] % vol;
			const auto p = pts[v[d] / vol].second;
			v[d] = -1;
			for (std::size_t i = 0; i < ds.size(); i++) {
				i64 x = 0;
				for (int bit = 0; (i64(1) << bit) < a; bit++)
					x |= (z >> (bit * ds.size() + (ds.size() - 1 - i)) & 1) << bit;
				v[ds[i]] = p[i] * a + x;
			}
			return true;
		});
		return *this;
	}
	// the same order found by descending: halve the box along each dimension in turn, clip the halves to the lengths
	Space &zcurve_descend(const std::string &ds, char d, int levels) {
		std::size_t inner = 0;
		i64 total = 1;
		std::vector<i64> ls;
		for (const char c : ds) {
			ls.push_back(len(c));
			total *= len(c);
			inner = std::max(inner, pos(c));
		}
		dims_[inner] = D{d, total};
		for (const char c : ds)
			if (c != d)
				for (std::size_t i = 0; i < dims_.size(); i++)
					if (dims_[i].name == c) {
						dims_.erase(dims_.begin() + i);
						break;
					}
		ops_.push_back([=](Vals &v) {
			i64 z = v[d];
			v[d] = -1;
			std::vector<i64> lo(ls.size(), 0), edge(ls.size(), i64(1) << levels);
			for (int l = 0; l < levels; l++)
				for (std::size_t i = 0; i < ls.size(); i++) {
					edge[i] /= 2;
					i64 vol = 1;
					for (std::size_t j = 0; j < ls.size(); j++)
						vol *= std::max<i64>(0, std::min(edge[j], ls[j] - lo[j]));
					if (z >= vol) {
						z -= vol;
						lo[i] += edge[i];
					}
				}
			for (std::size_t i = 0; i < ds.size(); i++)
				v[ds[i]] = lo[i];
			return true;
		});
		return *this;
	}
	static std::vector<std::pair<unsigned long long, std::vector<i64>>> morton(const std::vector<i64> &ls) {
		i64 total = 1;
		for (const i64 l : ls)
			total *= l;
		std::vector<std::pair<unsigned long long, std::vector<i64>>> pts;
		for (i64 x = 0; x < total; x++) {
			std::vector<i64> p(ls.size());
			i64 r = x;
			for (std::size_t i = 0; i < ls.size(); i++) {
				p[i] = r % ls[i];
				r /= ls[i];
			}
			unsigned long long m = 0;
			for (int bit = 15; bit >= 0; bit--)
				for (std::size_t i = 0; i < ls.size(); i++)
					m = m << 1 | (p[i] >> bit & 1);
			pts.emplace_back(m, p);
		}
		std::sort(pts.begin(), pts.end());
		return pts;
	}
	Space &join(char a, char b) { // result named a
		dims_.erase(dims_.begin() + pos(b));
		hoist(a);
		ops_.push_back([=](Vals &v) { return v[b] = v[a], true; });
		return *this;
	}

	// ---- evaluation ----
	bool eval(Vals v, Ent &e) const {
		for (std::size_t n = ops_.size(); n > sealed_; n--)
			if (!ops_[n - 1](v))
				return false;
		for (int i = 0; i < NK; i++)
			e.k.v[i] = v[KEYS[i]];
		for (std::size_t n = sealed_; n > 0; n--)
			if (!ops_[n - 1](v))
				return false;
		e.off = 0;
		if (custom_off_)
			e.off += custom_off_(v);
		for (auto &[d, s] : strides_)
			e.off += s * v[d];
		return true;
	}

	template<class F>
	void enumerate(std::size_t from, Vals &v, F &f) const {
		if (from == dims_.size()) {
			Ent e;
			if (eval(v, e))
				f(e);
			return;
		}
		for (i64 x = 0; x < dims_[from].len; x++) {
			v[dims_[from].name] = x;
			enumerate(from + 1, v, f);
		}
		v[dims_[from].name] = -1;
	}

	// entries of one section (index x of dimension d; the outermost by default)
	std::vector<Ent> section(i64 x, char d = 0) const {
		std::vector<Ent> out;
		auto f = [&](const Ent &e) { out.push_back(e); };
		Space c = *this;
		if (d)
			c.hoist(d);
		Vals v;
		v[c.dims_.front().name] = x;
		c.enumerate(1, v, f);
		return out;
	}
	std::vector<Ent> all() const {
		std::vector<Ent> out;
		auto f = [&](const Ent &e) { out.push_back(e); };
		Vals v;
		enumerate(0, v, f);
		return out;
	}
	std::string text() const {
		std::string s;
		for (auto &d : dims_)
			s += std::string(s.empty() ? "" : "x") + d.name + ":" + std::to_string(d.len);
		return s;
	}
};

} // namespace model
#endif
