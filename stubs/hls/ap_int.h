// The arbitrary-precision integers of Xilinx's HLS tools, as far as the decompressor may use them
#pragma once
#include <stdint.h>
#include <type_traits>
template <int W> struct ap_uint;
template <int W> struct ap_range;
template <int W> struct ap_uint {
	typedef unsigned _BitInt(W) T;
	T v;
	ap_uint() { unsigned char *p = (unsigned char *)&v; for (unsigned i = 0; i < sizeof v; i++) p[i] = 0xa5; v = (T)v; } // (indeterminate)
	template <class I, class = std::enable_if_t<std::is_integral<I>::value || std::is_enum<I>::value>> ap_uint(I i) : v((T)i) {}
	template <int M> ap_uint(const ap_uint<M> &o) : v((T)o.v) {}
	ap_uint(const ap_uint &) = default;
	template <int M> ap_uint(const ap_range<M> &r) : v((T)r.get()) {}
	ap_uint &operator=(const ap_uint &) = default;
	static const int width = W;
	int length() const { return W; }
	typedef std::conditional_t<W <= 63, long long, std::conditional_t<W == 64, unsigned long long, T>> R;
	operator R() const { return (R)v; }
	unsigned long long to_uint64() const { return (unsigned long long)v; }
	long long to_int64() const { return (long long)v; }
	unsigned to_uint() const { return (unsigned)v; }
	int to_int() const { return (int)v; }
	unsigned char to_uchar() const { return (unsigned char)v; }
	bool to_bool() const { return v != 0; }
	ap_range<W> operator()(int hi, int lo) { return ap_range<W>(*this, hi, lo); }
	ap_range<W> operator()(int hi, int lo) const { return ap_range<W>(const_cast<ap_uint &>(*this), hi, lo); }
	ap_range<W> range(int hi, int lo) { return (*this)(hi, lo); }
	ap_range<W> range(int hi, int lo) const { return (*this)(hi, lo); }
	ap_range<W> operator[](int i) { return (*this)(i, i); }
	bool operator[](int i) const { return (bool)((v >> i) & 1); }
	bool get_bit(int i) const { return (bool)((v >> i) & 1); }
	bool test(int i) const { return get_bit(i); }
	void set_bit(int i, bool b) { v = (T)((v & ~((T)1 << i)) | ((T)b << i)); }
	template <class X> ap_uint &operator+=(const X &x) { v = (T)(v + ap_uint(x).v); return *this; }
	template <class X> ap_uint &operator-=(const X &x) { v = (T)(v - ap_uint(x).v); return *this; }
	template <class X> ap_uint &operator|=(const X &x) { v = (T)(v | ap_uint(x).v); return *this; }
	template <class X> ap_uint &operator&=(const X &x) { v = (T)(v & ap_uint(x).v); return *this; }
	template <class X> ap_uint &operator^=(const X &x) { v = (T)(v ^ ap_uint(x).v); return *this; }
	template <class X> ap_uint &operator<<=(const X &x) { long long n = (long long)x; v = n >= W ? (T)0 : (T)(v << n); return *this; }
	template <class X> ap_uint &operator>>=(const X &x) { long long n = (long long)x; v = n >= W ? (T)0 : (T)(v >> n); return *this; }
	ap_uint &operator++() { v = (T)(v + 1); return *this; }
	ap_uint &operator--() { v = (T)(v - 1); return *this; }
	ap_uint operator++(int) { ap_uint r = *this; ++*this; return r; }
	ap_uint operator--(int) { ap_uint r = *this; --*this; return r; }
	template <int M> friend ap_uint<W + M> operator,(const ap_uint &a, const ap_uint<M> &b) { ap_uint<W + M> r; r.v = ((typename ap_uint<W + M>::T)a.v << M) | b.v; return r; }
};
void hls_range_error(int hi, int lo, int w); // a selection outside of the value
template <int W> struct ap_range {
	typedef unsigned _BitInt(W) T;
	ap_uint<W> &r; int hi, lo;
	ap_range(ap_uint<W> &r, int hi, int lo) : r(r), hi(hi), lo(lo) { if (lo < 0 || hi >= W || hi < lo - 1) hls_range_error(hi, lo, W); }
	ap_range(const ap_range &) = default;
	int length() const { return hi - lo + 1; }
	T mask() const { int n = hi - lo + 1; return n <= 0 ? (T)0 : n >= W ? (T)~(T)0 : (T)(((T)1 << n) - 1); }
	T get() const { return hi < lo ? (T)0 : (T)((r.v >> lo) & mask()); }
	void set(T x) const { if (hi >= lo) r.v = (T)((r.v & ~(T)(mask() << lo)) | (T)((x & mask()) << lo)); }
	operator unsigned long long() const { return (unsigned long long)get(); }
	unsigned long long to_uint64() const { return (unsigned long long)get(); }
	unsigned to_uint() const { return (unsigned)get(); }
	int to_int() const { return (int)get(); }
	template <class I, class = std::enable_if_t<std::is_integral<I>::value>> const ap_range &operator=(I i) const { set((T)i); return *this; }
	template <int M> const ap_range &operator=(const ap_uint<M> &x) const { set((T)x.v); return *this; }
	template <int M> const ap_range &operator=(const ap_range<M> &x) const { set((T)x.get()); return *this; }
	const ap_range &operator=(const ap_range &x) const { set(x.get()); return *this; }
};
