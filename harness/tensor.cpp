// Tensors: validation of what is decoded (C11), round trips (C12), views (C13).
#include "proto.h"
#include <complex>
// SEC selects what is compiled: 1 xt_rt, 2 xt_views, 3 eig_rt, 4 t_align, 5 t_hostile (xtensor), 6 t_hostile (Eigen), 7 t_shape, 8 xt_big, 9 eig_big
#if SEC == 2
#include <xtensor/xview.hpp>
#include <xtensor/xstrided_view.hpp>
#endif
#include <zerialize/tensor/xtensor.hpp>
#include <zerialize/tensor/eigen.hpp>
namespace zx = zerialize::xtensor;
namespace ze = zerialize::eigen;
using half = xtl::half_float;
using cf = std::complex<float>;
using cd = std::complex<double>;
// codes as published in tensor/utils.hpp: the wire contract between writers and readers
template <class T> constexpr int kCode = -1;
template <> constexpr int kCode<int8_t> = 0;
template <> constexpr int kCode<int16_t> = 1;
template <> constexpr int kCode<int32_t> = 2;
template <> constexpr int kCode<int64_t> = 3;
template <> constexpr int kCode<uint8_t> = 4;
template <> constexpr int kCode<uint16_t> = 5;
template <> constexpr int kCode<uint32_t> = 6;
template <> constexpr int kCode<uint64_t> = 7;
template <> constexpr int kCode<float> = 10;
template <> constexpr int kCode<double> = 11;
template <> constexpr int kCode<cf> = 12;
template <> constexpr int kCode<cd> = 13;
template <> constexpr int kCode<half> = 14;
template <class F> void each_type(uint64_t i, F f) {
  switch (i) {
    case 0: f((int8_t *)0); break; case 1: f((int16_t *)0); break; case 2: f((int32_t *)0); break; case 3: f((int64_t *)0); break;
    case 4: f((uint8_t *)0); break; case 5: f((uint16_t *)0); break; case 6: f((uint32_t *)0); break; case 7: f((uint64_t *)0); break;
    case 8: f((float *)0); break; case 9: f((double *)0); break; case 10: f((cf *)0); break; case 11: f((cd *)0); break; default: f((half *)0); break;
  }
}
template <class F> void align_type(F f) {
  switch (zs_pick(6, "dtype")) { case 0: f((uint8_t *)0); break; case 1: f((int16_t *)0); break; case 2: f((float *)0); break; case 3: f((int64_t *)0); break; case 4: f((cf *)0); break; default: f((cd *)0); break; }
}
template <class F> void any_type(F f) { each_type(zs_pick(13, "dtype"), f); }
template <class T> bool beq(const T &a, const void *b) { return memcmp(&a, b, sizeof(T)) == 0; }
// arbitrary elements, byte images kept aside
template <class T> struct Elems {
  std::string raw;
  explicit Elems(size_t n) : raw(sym_str(n * sizeof(T), "e")) {}
  T at(size_t i) const { T v; memcpy((void *)&v, raw.data() + i * sizeof(T), sizeof(T)); return v; }
};
// the view describes exactly the elements `raw` with shape `sh` (row-major)
template <class T, class V> void check_xview(const V &v, const std::vector<uint64_t> &sh, const std::string &raw) {
  ZS_ASSERT(v.rank() == sh.size() && v.shape().size() == sh.size(), "tensor rank changed");
  for (size_t i = 0; i < sh.size(); i++) ZS_ASSERT(v.shape()[i] == sh[i], "tensor shape changed");
  size_t n = raw.size() / sizeof(T);
  auto t = v.tensor();
  ZS_ASSERT(t.dimension() == sh.size(), "tensor view rank");
  for (size_t i = 0; i < sh.size(); i++) ZS_ASSERT((uint64_t)t.shape()[i] == sh[i], "tensor view shape");
  auto a = v.array();
  ZS_ASSERT(a.dimension() == sh.size(), "tensor copy rank");
  for (size_t i = 0; i < sh.size(); i++) ZS_ASSERT((uint64_t)a.shape()[i] == sh[i], "tensor copy shape");
  if (n == 0) return;
  std::vector<size_t> ix(sh.size(), 0);
  for (size_t i = 0; i < n; i++) {
    ZS_ASSERT(beq<T>(t.element(ix.begin(), ix.end()), raw.data() + i * sizeof(T)), "tensor element changed (view)");
    ZS_ASSERT(beq<T>(a.element(ix.begin(), ix.end()), raw.data() + i * sizeof(T)), "tensor element changed (copy)");
    for (size_t k = sh.size(); k-- > 0;) { if (++ix[k] < sh[k]) break; ix[k] = 0; }
  }
}
template <class T> void check_info(const z::tensor::TensorViewInfo &in, const void *data, std::span<const uint8_t> buf, std::span<const std::byte> blob) {
  ZS_ASSERT(in.required_alignment == alignof(T), "reported alignment requirement");
  ZS_ASSERT(in.byte_size == blob.size(), "reported byte size");
#if PROTO_ID == PROTO_JSON // blobs are decoded: every view owns a copy
  ZS_ASSERT(!in.zero_copy && in.reason == z::tensor::TensorViewReason::NotSpanBacked, "a decoded payload is not a view of the input");
  if (blob.size()) ZS_ASSERT(!inside(data, blob.size(), buf.data(), buf.size()) && (uintptr_t)data % alignof(T) == 0, "view of a decoded payload");
  return;
#endif
  ZS_ASSERT(in.address == (uintptr_t)blob.data(), "reported address is not the payload's");
  bool aligned = (uintptr_t)blob.data() % alignof(T) == 0;
  ZS_ASSERT(in.zero_copy == aligned, "zero-copy exactly when the payload is aligned");
  ZS_ASSERT(in.reason == (aligned ? z::tensor::TensorViewReason::Ok : z::tensor::TensorViewReason::Misaligned), "reported reason");
  ZS_ASSERT(aligned || in.reason != z::tensor::TensorViewReason::Ok, "reported reason");
  if (!blob.size()) return;
  bool in_buf = inside(data, blob.size(), buf.data(), buf.size());
  ZS_ASSERT(in_buf == in.zero_copy, "view is backed by the input exactly when it says so");
  if (in.zero_copy) ZS_ASSERT(data == (const void *)blob.data(), "zero-copy view does not start at the payload");
  ZS_ASSERT((uintptr_t)data % alignof(T) == 0, "tensor storage is misaligned for its element type");
}
// ---------------------------------------------------------------- C12: xtensor
template <class T, class X> void rt_one(const X &x, const std::vector<uint64_t> &sh, const std::string &raw, bool map_form) {
  z::ZBuffer b = map_form
    ? z::serialize<P>(z::zmap<"dtype", "shape", "data">(z::tensor_dtype_index<T>, z::shape_of_sizet(x.shape()), z::span_from_data_of(x)))
    : z::serialize<P>(x);
  CopyBuf cb(b.buf());
  R r(cb.span());
  try {
    if (map_form) {
      check_xview<T>(zx::asXTensorView<T, -1, true>(r), sh, raw);
      auto a = zx::asXTensor<T, -1, true>(r);
      for (size_t i = 0; i < raw.size() / sizeof(T); i++) ZS_ASSERT(beq<T>(a.data()[i], raw.data() + i * sizeof(T)), "element changed");
    } else {
      ZS_ASSERT(r[0].asInt32() == kCode<T>, "element type code");
      check_xview<T>(zx::asXTensorView<T>(r), sh, raw);
      auto a = zx::asXTensor<T>(r);
      for (size_t i = 0; i < raw.size() / sizeof(T); i++) ZS_ASSERT(beq<T>(a.data()[i], raw.data() + i * sizeof(T)), "element changed");
    }
  } catch (const z::DeserializationError &) { ZS_FAIL("written tensor not decodable"); }
}
#if SEC == 1
// every shape of rank 0..param0 with dimensions 0..param1, every element type, container and layout
ZS_ENTRY(xt_rt) {
  any_type([](auto *tp) {
    using T = std::remove_pointer_t<decltype(tp)>;
    size_t rank = zs_pick(zs_param(0) + 1, "rank"), n = 1;
    std::vector<uint64_t> sh; std::vector<size_t> shs;
    for (size_t i = 0; i < rank; i++) { sh.push_back(zs_pick(zs_param(1) + 1, "dim")); shs.push_back(sh.back()); n *= sh.back(); }
    Elems<T> e(n);
    auto fill = [&](auto &x) {
      std::vector<size_t> ix(rank, 0);
      for (size_t i = 0; i < n; i++) {
        x.element(ix.begin(), ix.end()) = e.at(i);
        for (size_t k = rank; k-- > 0;) { if (++ix[k] < sh[k]) break; ix[k] = 0; }
      }
    };
    switch (zs_pick(4, "container")) {
      case 0: { auto x = xt::xarray<T>::from_shape(shs); fill(x); rt_one<T>(x, sh, e.raw, false); break; }
      case 1: { auto x = xt::xarray<T>::from_shape(shs); fill(x); rt_one<T>(x, sh, e.raw, true); break; }
      case 2: { auto x = xt::xarray<T, xt::layout_type::column_major>::from_shape(shs); fill(x); rt_one<T>(x, sh, e.raw, false); break; }
      case 3: { if (rank != 2) return; std::array<size_t, 2> s2{shs[0], shs[1]}; auto x = xt::xtensor<T, 2>::from_shape(s2); fill(x); rt_one<T>(x, sh, e.raw, false); break; }
    }
    zs_cover("done");
  });
}
#endif
#if SEC == 2
// strided, offset, transposed views and dynamic layouts over one base array of 3x4
ZS_ENTRY(xt_views) {
  auto go = [](auto *tp) {
    using T = std::remove_pointer_t<decltype(tp)>;
    Elems<T> e(12);
    std::array<size_t, 2> s2{3, 4};
    auto base = xt::xtensor<T, 2>::from_shape(s2);
    for (size_t i = 0; i < 12; i++) base.data()[i] = e.at(i);
    auto sel = [&](std::initializer_list<int> ix) { std::string r; for (int i : ix) r.append(e.raw, i * sizeof(T), sizeof(T)); return r; };
    switch (zs_pick(9, "view")) {
      case 0: { auto v = xt::view(base, xt::range(0, 2), xt::all()); rt_one<T>(v, {2, 4}, sel({0, 1, 2, 3, 4, 5, 6, 7}), false); break; }
      case 1: { auto v = xt::view(base, xt::range(1, 3), xt::all()); rt_one<T>(v, {2, 4}, sel({4, 5, 6, 7, 8, 9, 10, 11}), false); break; }
      case 2: { auto v = xt::view(base, xt::all(), 1); rt_one<T>(v, {3}, sel({1, 5, 9}), false); break; }
      case 3: { auto v = xt::view(base, 2, xt::all()); rt_one<T>(v, {4}, sel({8, 9, 10, 11}), false); break; }
      case 4: { auto v = xt::view(base, xt::range(0, 3, 2), xt::range(1, 4, 2)); rt_one<T>(v, {2, 2}, sel({1, 3, 9, 11}), false); break; }
      case 5: { auto v = xt::transpose(base); rt_one<T>(v, {4, 3}, sel({0, 4, 8, 1, 5, 9, 2, 6, 10, 3, 7, 11}), false); break; }
      case 6: { auto v = xt::view(base, xt::range(0, 1), xt::range(2, 4)); rt_one<T>(v, {1, 2}, sel({2, 3}), false); break; }
      case 7: { xt::xarray<T, xt::layout_type::dynamic> x; x.resize(std::vector<size_t>{3, 4}, xt::layout_type::column_major);
                for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 4; j++) x(i, j) = e.at(i * 4 + j);
                rt_one<T>(x, {3, 4}, e.raw, false); break; }
      case 8: { auto v = xt::adapt(base.data(), (size_t)12, xt::no_ownership(), std::vector<size_t>{2, 3, 2}); rt_one<T>(v, {2, 3, 2}, e.raw, false); break; }
    }
    zs_cover("done");
  };
  switch (zs_pick(4, "type")) { case 0: go((uint8_t *)0); break; case 1: go((int32_t *)0); break; case 2: go((double *)0); break; default: go((cf *)0); break; }
}
#endif
// ---------------------------------------------------------------- C12: Eigen
template <class T, int NR, int NC, int O, class V> void check_ev(const V &v, size_t r, size_t c, const std::string &raw) {
  ZS_ASSERT(v.rows() == r && v.cols() == c, "matrix shape changed");
  auto m = v.map(); auto o = v.matrix();
  ZS_ASSERT((size_t)m.rows() == r && (size_t)m.cols() == c && (size_t)o.rows() == r && (size_t)o.cols() == c, "matrix shape changed");
  for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) {
    size_t k = (O & Eigen::RowMajor) ? i * c + j : j * r + i;
    T a = m(i, j), b = o(i, j);
    ZS_ASSERT(beq<T>(a, raw.data() + k * sizeof(T)), "matrix element changed (view)");
    ZS_ASSERT(beq<T>(b, raw.data() + k * sizeof(T)), "matrix element changed (copy)");
  }
}
template <class T, int NR, int NC, int O> void eig_one(size_t r, size_t c, bool nested) {
  Elems<T> e(r * c);
  Eigen::Matrix<T, NR, NC, O> m;
  if constexpr (NR == Eigen::Dynamic || NC == Eigen::Dynamic) m.resize(r, c);
  for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) m(i, j) = e.at((O & Eigen::RowMajor) ? i * c + j : j * r + i);
  z::ZBuffer b = nested ? z::serialize<P>(z::zmap<"a", "m">("x", m)) : z::serialize<P>(m);
  CopyBuf cb(b.buf());
  R rr(cb.span());
  auto chk = [&](const auto &v) {
    try {
      constexpr int O2 = O & Eigen::RowMajor;
      check_ev<T, NR, NC, O>(ze::asEigenMatrixView<T, NR, NC, false, O2>(v), r, c, e.raw);
      auto mm = ze::asEigenMatrix<T, NR, NC, false, O2>(v);
      for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) { T a = mm(i, j), x = m(i, j); ZS_ASSERT(beq<T>(a, &x), "matrix element changed"); }
    } catch (const z::DeserializationError &) { ZS_FAIL("written matrix not decodable"); }
  };
  if (nested) { auto v = rr["m"]; chk(v); } else chk(rr);
}
#if SEC == 3
ZS_ENTRY(eig_rt) {
  any_type([](auto *tp) {
    using T = std::remove_pointer_t<decltype(tp)>;
    if constexpr (!std::is_same_v<T, half>) {
      bool nest = zs_pick(2, "nested");
      constexpr int D = Eigen::Dynamic, RM = Eigen::RowMajor, CM = Eigen::ColMajor;
      switch (zs_pick(6, "matrix")) {
        case 0: { size_t r = zs_pick(zs_param(0) + 1, "rows"), c = zs_pick(zs_param(0) + 1, "cols"); eig_one<T, D, D, CM>(r, c, nest); break; }
        case 1: { size_t r = zs_pick(zs_param(0) + 1, "rows"), c = zs_pick(zs_param(0) + 1, "cols"); eig_one<T, D, D, RM>(r, c, nest); break; }
        case 2: eig_one<T, 3, 2, CM>(3, 2, nest); break;
        case 3: eig_one<T, 2, 3, RM>(2, 3, nest); break;
        case 4: { size_t r = zs_pick(zs_param(0) + 1, "rows"); eig_one<T, D, 1, CM>(r, 1, nest); break; }
        case 5: { size_t c = zs_pick(zs_param(0) + 1, "cols"); eig_one<T, 1, D, RM>(1, c, nest); break; }
      }
      zs_cover("done");
    }
  });
}
#endif
// ---------------------------------------------------------------- C12: large dimensions
// one dimension at or beyond an integer width, the others 0 (no elements) or 1 (a few arbitrary elements among fixed ones)
static const uint64_t kBigDim[] = {127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 0x7fffffffull, 0x80000000ull, 0xffffffffull};
template <class T> std::string long_raw(size_t n) {
  std::string s(n * sizeof(T), 0); for (size_t i = 0; i < s.size(); i++) s[i] = (char)(i * 31 + i / 251);
  std::string x = sym_str(4, "e"); size_t at[4] = {0, s.size() / 2, s.size() / 3, s.size() - 1};
  for (int i = 0; i < 4; i++) s[at[i]] = x[i];
  return s;
}
#if SEC == 8
ZS_ENTRY(xt_big) {
  auto go = [](auto *tp) {
    using T = std::remove_pointer_t<decltype(tp)>;
    size_t d = kBigDim[zs_pick(13, "big")], rank = 1 + zs_pick(3, "rank"), at = rank == 1 ? 0 : zs_pick(rank, "at");
    bool empty = rank > 1 && (d > 70000 || zs_pick(2, "empty"));
    if (rank == 1 && d > 70000) return;
    std::vector<size_t> shs(rank, empty ? 0 : 1); shs[at] = d; std::vector<uint64_t> sh(shs.begin(), shs.end());
    if (empty && rank == 3) return; // a third dimension may overflow the strides: see t_hostile
    std::string raw = empty ? std::string() : long_raw<T>(d);
    auto x = xt::xarray<T>::from_shape(shs);
    if (!empty) memcpy((void *)x.data(), raw.data(), raw.size());
    z::ZBuffer b = zs_pick(2, "form") ? z::serialize<P>(z::zmap<"dtype", "shape", "data">(z::tensor_dtype_index<T>, z::shape_of_sizet(x.shape()), z::span_from_data_of(x))) : z::serialize<P>(x);
    CopyBuf cb(b.buf()); R r(cb.span());
    auto chk = [&](const auto &v, const auto &a) {
      auto t = v.tensor();
      ZS_ASSERT(v.rank() == rank && t.dimension() == rank && a.dimension() == rank, "tensor rank changed");
      for (size_t i = 0; i < rank; i++) ZS_ASSERT(v.shape()[i] == sh[i] && (uint64_t)t.shape()[i] == sh[i] && (uint64_t)a.shape()[i] == sh[i], "tensor shape changed");
      ZS_ASSERT(a.size() == raw.size() / sizeof(T) && t.size() == a.size(), "number of elements changed");
      if (raw.size()) ZS_ASSERT(memcmp((const void *)a.data(), raw.data(), raw.size()) == 0 && memcmp((const void *)t.data(), raw.data(), raw.size()) == 0, "tensor element changed");
    };
    try {
      if (r.isMap()) chk(zx::asXTensorView<T, -1, true>(r), zx::asXTensor<T, -1, true>(r)); else chk(zx::asXTensorView<T>(r), zx::asXTensor<T>(r));
    } catch (const z::DeserializationError &) { ZS_FAIL("written tensor not decodable"); }
    zs_cover("done");
  };
  switch (zs_pick(3, "type")) { case 0: go((uint8_t *)0); break; case 1: go((int16_t *)0); break; default: go((double *)0); break; }
}
#endif
#if SEC == 9
ZS_ENTRY(eig_big) {
  auto go = [](auto *tp) {
    using T = std::remove_pointer_t<decltype(tp)>;
    size_t d = kBigDim[zs_pick(13, "big")]; bool empty = d > 70000 || zs_pick(2, "empty"), row = zs_pick(2, "row");
    size_t r = row ? d : empty ? 0 : 1, c = row ? (empty ? 0 : 1) : d;
    std::string raw = empty ? std::string() : long_raw<T>(d);
    Eigen::Matrix<T, -1, -1> m; m.resize(r, c);
    if (!empty) memcpy((void *)m.data(), raw.data(), raw.size());
    z::ZBuffer b = z::serialize<P>(m);
    CopyBuf cb(b.buf()); R rr(cb.span());
    try {
      auto v = ze::asEigenMatrixView<T, -1, -1>(rr); auto o = ze::asEigenMatrix<T, -1, -1>(rr); auto mp = v.map();
      ZS_ASSERT(v.rows() == r && v.cols() == c && (size_t)o.rows() == r && (size_t)o.cols() == c && (size_t)mp.rows() == r && (size_t)mp.cols() == c, "matrix shape changed");
      if (raw.size()) ZS_ASSERT(memcmp((const void *)o.data(), raw.data(), raw.size()) == 0 && memcmp((const void *)mp.data(), raw.data(), raw.size()) == 0, "matrix element changed");
    } catch (const z::DeserializationError &) { ZS_FAIL("written matrix not decodable"); }
    zs_cover("done");
  };
  switch (zs_pick(3, "type")) { case 0: go((uint8_t *)0); break; case 1: go((int16_t *)0); break; default: go((double *)0); break; }
}
#endif
// ---------------------------------------------------------------- C13: alignment
#if SEC == 4
// copies, moves and assignments of a view say the same as the view did, after the view they came from is gone
template <class F, class G> static void outlive(F &&mk, G &&check) {
  using V = std::decay_t<decltype(mk())>;
  auto p = std::make_unique<V>(mk());
  switch (zs_pick(4, "how")) {
    case 0: { V c(*p); p.reset(); check(c); break; }
    case 1: { V c(std::move(*p)); p.reset(); check(c); break; }
    case 2: if constexpr (std::is_copy_assignable_v<V>) { auto c = std::make_unique<V>(mk()); V d(*c); d = *p; c.reset(); p.reset(); check(d); } break;
    default: if constexpr (std::is_move_assignable_v<V>) { auto c = std::make_unique<V>(mk()); *c = std::move(*p); p.reset(); std::vector<V> v; v.push_back(*c); v.push_back(std::move(*c)); c.reset(); check(v[0]); check(v[1]); } break;
  }
}
// a tensor after a string of every length, in a buffer at every offset
ZS_ENTRY(t_align) {
  align_type([](auto *tp) {
    using T = std::remove_pointer_t<decltype(tp)>;
    size_t pad = zs_pick(zs_param(0) + 1, "prefix"), off = zs_pick(zs_param(1) + 1, "offset"), n = zs_pick(3, "elements");
    Elems<T> e(n * 2);
    std::array<size_t, 2> s2{n, 2};
    auto x = xt::xtensor<T, 2>::from_shape(s2);
    for (size_t i = 0; i < n * 2; i++) x.data()[i] = e.at(i);
    std::string p(pad, 'p');
    z::ZBuffer b = z::serialize<P>(z::zvec(p, x, 7));
    size_t len = b.size();
    uint8_t *mem = (uint8_t *)malloc(len + off);
    memcpy(mem + off, b.data(), len);
    {
      std::span<const uint8_t> buf(mem + off, len);
      R r(buf);
      try {
        auto v = r[1];
        auto pv = v[2];
        auto blob = pv.asBlob();
        ZS_ASSERT(eqs({(const char *)blob.data(), blob.size()}, e.raw), "payload changed");
        auto xv = zx::asXTensorView<T>(v);
        check_info<T>(xv.viewInfo(), xv.tensor().data(), buf, blob);
        check_xview<T>(xv, {n, 2}, e.raw);
        auto copy = xv; auto moved = std::move(xv);
        check_info<T>(copy.viewInfo(), copy.tensor().data(), buf, blob);
        check_xview<T>(moved, {n, 2}, e.raw);
        if (pad < 3) outlive([&] { return zx::asXTensorView<T>(v); }, [&](const auto &c) { check_info<T>(c.viewInfo(), c.tensor().data(), buf, blob); check_xview<T>(c, {n, 2}, e.raw); });
        if constexpr (!std::is_same_v<T, half>) {
          auto ev = ze::asEigenMatrixView<T, Eigen::Dynamic, 2, false, Eigen::RowMajor>(v);
          check_info<T>(ev.viewInfo(), ev.map().data(), buf, blob);
          check_ev<T, Eigen::Dynamic, 2, Eigen::RowMajor>(ev, n, 2, e.raw);
          if (n == 2) {
            auto fv = ze::asEigenMatrixView<T, 2, 2, false, Eigen::RowMajor>(v);
            check_info<T>(fv.viewInfo(), fv.map().data(), buf, blob);
            auto fc = fv;
            check_ev<T, 2, 2, Eigen::RowMajor>(fc, n, 2, e.raw);
            if (pad < 3) outlive([&] { return ze::asEigenMatrixView<T, 2, 2, false, Eigen::RowMajor>(v); }, [&](const auto &c) { check_info<T>(c.viewInfo(), c.map().data(), buf, blob); check_ev<T, 2, 2, Eigen::RowMajor>(c, n, 2, e.raw); });
          }
          if (pad < 3) outlive([&] { return ze::asEigenMatrixView<T, Eigen::Dynamic, 2, false, Eigen::RowMajor>(v); }, [&](const auto &c) { check_info<T>(c.viewInfo(), c.map().data(), buf, blob); check_ev<T, Eigen::Dynamic, 2, Eigen::RowMajor>(c, n, 2, e.raw); });
        }
        if (kZera && off == 0) ZS_ASSERT((uintptr_t)blob.data() % 16 == 0 || !blob.size(), "ZERA payload of an aligned buffer is not 16-aligned");
      } catch (const z::DeserializationError &) { ZS_FAIL("written tensor not decodable"); }
    }
    free(mem);
    zs_cover(off ? "offset" : "done");
  });
}
#endif
// ---------------------------------------------------------------- C11: hostile tensors
struct Dim { int kind; uint64_t u; };          // kind 0 signed, 1 unsigned, 2 other
static Node any_other() {
  switch (zs_pick(6, "other")) { case 0: return nNull(); case 1: return nBool(true); case 2: return nDbl(bits(2.0)); case 3: return nStr("2"); case 4: return nBlob("2"); default: return nArr(); }
}
template <class T, int NR, int NC, bool M, class V> void hostile_eigen(const V &r, bool well, const std::vector<Dim> &d, bool sizes_ok, const std::string &raw) {
  bool want = well && sizes_ok && d.size() == 2;
  if (want && NR >= 0 && d[0].u != (uint64_t)NR) want = false;
  if (want && NC >= 0 && d[1].u != (uint64_t)NC) want = false;
  try {
    auto v = ze::asEigenMatrixView<T, NR, NC, M>(r);
    ZS_ASSERT(want, "decoded a matrix that should have been rejected");
    ZS_ASSERT(v.rows() == d[0].u && v.cols() == d[1].u, "matrix shape");
    if (raw.size()) check_ev<T, NR, NC, 0>(v, zs_conc(v.rows()), zs_conc(v.cols()), raw);
    zs_cover("accepted");
  } catch (const z::DeserializationError &) { ZS_ASSERT(!want, "rejected a valid matrix"); zs_cover("rejected"); }
}
template <class T, int D, bool M, class V> void hostile_x(const V &r, bool well, const std::vector<Dim> &d, bool sizes_ok, bool either, const std::string &raw) {
  bool want = well && sizes_ok && (D < 0 || d.size() == (size_t)D);
  try {
    auto v = zx::asXTensorView<T, D, M>(r);
    ZS_ASSERT(want, "decoded a tensor that should have been rejected");
    ZS_ASSERT(v.rank() == d.size(), "tensor rank");
    for (size_t i = 0; i < d.size(); i++) ZS_ASSERT(v.shape()[i] == d[i].u, "tensor shape");
    if (raw.size()) { std::vector<uint64_t> sh; for (auto &x : d) sh.push_back(zs_conc(x.u)); check_xview<T>(v, sh, raw); }
    zs_cover("accepted");
  } catch (const z::DeserializationError &) { ZS_ASSERT(!want || either, "rejected a valid tensor"); zs_cover("rejected"); }
}
#if SEC == 5 || SEC == 6
// every 64-bit value, split into 0..K one by one, [K+1, 2^31+K], [2^31, 2^32) and the rest
// (the split keeps products of dimensions within interval reasoning); few: a set of representatives
static uint64_t any_dim(uint64_t K, bool few) {
  if (few) { static const uint64_t F[8] = {0, 1, 2, 3, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu}; return F[zs_pick(8, "dim3")]; }
  uint64_t c = zs_pick(K + 4, "dclass");
  if (c <= K) return c;
  if (c == K + 1) return K + 1 + (zs_u32("dim") & 0x7fffffffu);
  if (c == K + 2) return 0x80000000u | zs_u32("dim");
  uint64_t u = zs_u64("dim"); zs_assume(u > 0xffffffffull); return u;
}
template <class T, bool M> void hostile() {
  size_t rank = zs_pick(zs_param(0) + 1, "rank");
  Node shape = nArr(); std::vector<Dim> d;
  for (size_t i = 0; i < rank; i++) {
    Dim x; x.kind = rank > 2 && i ? d[0].kind : (int)zs_pick(zs_param(3) ? 3 : 2, "dkind");
    x.u = x.kind == 2 ? 0 : any_dim(zs_param(1) / sizeof(T), (rank > 2 && i > 1) || (kFlex && i > 0));
    shape.c.push_back(x.kind == 0 ? nInt((int64_t)x.u) : x.kind == 1 ? nUInt(x.u) : any_other());
    d.push_back(x);
  }
  size_t len = zs_pick(zs_param(1) + 1, "len");
  std::string raw = sym_str(len, "data");
  bool dims_ok = true; bool sizes_ok = true, either = false;
  uint64_t prod = 1; bool zero = false;
  for (auto &x : d) { if (x.kind == 2 || x.u > 0xffffffffull) dims_ok = false; }
  if (dims_ok) {
    for (auto &x : d) if (x.u == 0) zero = true;
    if (zero) { sizes_ok = len == 0; either = rank > 2; }
    else {
      bool over = false;
      for (auto &x : d) { if (!over) prod *= (uint32_t)x.u; if (prod > 4096) over = true; } // < 2^45: no overflow
      sizes_ok = !over && prod * sizeof(T) == len;
    }
  }
  bool well = dims_ok, code_either = false;
  Node code; int ck = rank == 1 ? (int)zs_pick(3, "ckind") : 0;
  if (ck == 0) { int64_t c = (int64_t)zs_u64("code"); code = nInt(c); if (c != kCode<T>) well = false; }
  else if (ck == 1) { uint64_t c = zs_u64("code"); code = nUInt(c); if (c != (uint64_t)kCode<T>) well = false; else code_either = true; }
  else { code = any_other(); well = false; }
  Node doc;
  if (M) { doc = nMap(); put(doc, "shape", shape); put(doc, "dtype", code); put(doc, "data", nBlob(raw)); }
  else { doc = nArr(); doc.c = {code, shape, nBlob(raw)}; }
  auto b = encode<P>(doc);
  CopyBuf cb(b.buf());
  R r(cb.span());
  if (code_either) { if (!deser_ok([&] { if (!z::isTensor<T, M>(r)) throw z::DeserializationError("x"); })) return; }
  if (well) { if (zs_param(3) == 0) ZS_ASSERT((z::isTensor<T, M>(r)), "isTensor rejects a tensor"); }
#if SEC == 5
  switch (zs_pick(3, "xt")) {
    case 0: hostile_x<T, -1, M>(r, well, d, sizes_ok, either, raw); break;
    case 1: hostile_x<T, 2, M>(r, well, d, sizes_ok, either, raw); break;
    case 2: hostile_x<T, 1, M>(r, well, d, sizes_ok, either, raw); break;
  }
#else
  switch (zs_pick(3, "eig")) {
    case 0: hostile_eigen<T, -1, -1, M>(r, well, d, sizes_ok, raw); break;
    case 1: hostile_eigen<T, 2, 2, M>(r, well, d, sizes_ok, raw); break;
    case 2: hostile_eigen<T, -1, 3, M>(r, well, d, sizes_ok, raw); break;
  }
#endif
}
// params: max rank, max payload length, unused, 1 = also non-integer dimensions, type, 1 = map form
template <class T> void hostile_t() { if (zs_param(5)) hostile<T, true>(); else hostile<T, false>(); }
ZS_ENTRY(t_hostile) {
  switch (zs_param(4)) { case 0: hostile_t<uint8_t>(); break; case 1: hostile_t<int16_t>(); break; case 2: hostile_t<float>(); break; default: hostile_t<double>(); break; }
}
#endif
#if SEC == 7
// other kinds of value, missing parts
ZS_ENTRY(t_shape) {
  using T = int16_t;
  Node sh = nArr(); sh.c = {nUInt(2), nUInt(1)};
  Node parts[3] = {nInt(kCode<T>), sh, nBlob(sym_str(4, "data"))};
  bool map = zs_pick(2, "map"); bool ok = true; Node doc = map ? nMap() : nArr();
  if (zs_pick(2, "scalar")) { doc = any_other(); ok = false; }
  else {
    static const char *K[3] = {"dtype", "shape", "data"};
    size_t n = map ? 3 : zs_pick(5, "parts"); size_t drop = map ? zs_pick(4, "drop") : 3;
    if (n < 3 || drop < 3) ok = false;
    size_t bad = zs_pick(4, "bad"); Node o = any_other();
    for (size_t i = 0; i < n; i++) {
      if (i == drop) continue;
      Node v = i < 3 ? parts[i] : nStr("extra");
      if (i == bad) { v = o; bool same_kind = (i == 1 && o.k == KArr) || (i == 2 && o.k == KBlob); if (!same_kind) ok = false; else { ok = false; } }
      if (map) put(doc, K[i], v); else doc.c.push_back(v);
    }
  }
  auto b = encode<P>(doc);
  CopyBuf cb(b.buf());
  R r(cb.span());
  auto go = [&](auto f, const char *) { try { f(); ZS_ASSERT(ok, "decoded something that is not the tensor asked for"); zs_cover("accepted"); } catch (const z::DeserializationError &) { ZS_ASSERT(!ok, "rejected a tensor"); zs_cover("rejected"); } };
  if (map) { go([&] { (void)zx::asXTensor<T, 2, true>(r); }, "x"); go([&] { (void)ze::asEigenMatrix<T, -1, -1, true>(r); }, "e"); }
  else { go([&] { (void)zx::asXTensor<T, 2>(r); }, "x"); go([&] { (void)ze::asEigenMatrix<T, -1, -1>(r); }, "e"); }
}
#endif
