#pragma once
// Stand-in: routing is folded into the interconnect stand-in.
namespace axi_interconnect {
class AXI_Router_AXI4 {
public:
  void init() {}
  template <class A, class B, class C> void comb_outputs(A &, B &, C &) {}
  template <class A, class B, class C> void comb_inputs(A &, B &, C &) {}
  template <class A, class B, class C> void seq(A &, B &, C &) {}
};
} // namespace axi_interconnect
