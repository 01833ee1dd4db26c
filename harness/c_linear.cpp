#include "common.hpp"
// y = x W^T + b on the flattened input, dx += dy W, dW = dy^T x, db = column sums of dy
static void linear(int N, const Shape &rest, int units, int maxN) {
  Shape in{maxN}; int K = 1; for (int d : rest) { in.push_back(d); K *= d; }
  Layer l = make(dw::Linear(units, "fc"), in);
  Shape xs = in; xs[0] = N;
  Tensor x = sym_tensor("x", xs); VF X = values(x);
  dw_sym_floats("w", l.param("weight").data(), units * K); dw_sym_floats("b", l.param("bias").data(), units);
  VF W = values(l.param("weight")), B = values(l.param("bias"));
  Tensor y = fwd(l, x, {N, units});
  VF e(N * units);
  for (int n = 0; n < N; n++) for (int u = 0; u < units; u++) { float s = B[u]; for (int k = 0; k < K; k++) s += X[n * K + k] * W[u * K + k]; e[n * units + u] = s; }
  check_all(y, e, "Linear output is x*W^T + b");
  check_all(x, X, "forward leaves the input alone"); check_all(l.param("weight"), W, "forward leaves the weights alone");
  // backward: the gradient of the input is added to what is there
  Tensor gy = sym_tensor("gy", {N, units}), gx = sym_tensor("gx0", xs); VF G = values(gy), G0 = values(gx);
  dw_sym_floats("gw0", l.grad("weight").data(), units * K); dw_sym_floats("gb0", l.grad("bias").data(), units);
  std::vector<Tensor> gi{gx};
  l.cpu->backward({x}, {y}, {gy}, gi);
  VF eg = G0; for (int n = 0; n < N; n++) for (int k = 0; k < K; k++) { float s = 0; for (int u = 0; u < units; u++) s += G[n * units + u] * W[u * K + k]; eg[n * K + k] += s; }
  check_all(gx, eg, "Linear backward adds dy*W to the input gradient");
  l.cpu->updateGradients({x}, {gy});
  VF ew(units * K), eb(units);
  for (int u = 0; u < units; u++) { for (int n = 0; n < N; n++) eb[u] += G[n * units + u]; for (int k = 0; k < K; k++) for (int n = 0; n < N; n++) ew[u * K + k] += G[n * units + u] * X[n * K + k]; }
  check_all(l.grad("weight"), ew, "Linear weight gradient is dy^T*x"); check_all(l.grad("bias"), eb, "Linear bias gradient is the column sum of dy");
  check_all(gy, G, "backward leaves the output gradient alone");
}
ENTRY e_linear2d() { linear(size_in("batch", 1, DEEP(3, 6)), {size_in("features", 1, DEEP(3, 7))}, size_in("units", 1, DEEP(3, 6)), 3); }
ENTRY e_linear4d() { linear(size_in("batch", 1, DEEP(2, 3)), {2, DEEP(2, 3), size_in("width", 1, DEEP(2, 4))}, DEEP(2, 3), 2); }
ENTRY e_linear_large() { linear(size_in("batch", 9, DEEP(10, 17)), {DEEP(13, size_in("features", 12, 20))}, DEEP(6, size_in("units", 5, 9)), 9); }
ENTRY e_linear_tall() { linear(DEEP(37, 70), {3}, 2, 37); }
ENTRY e_linear_wide() { linear(2, {DEEP(67, 131)}, 3, 2); }
ENTRY e_linear_units() { linear(2, {3}, DEEP(35, 70), 2); }
ENTRY e_linear_vast() { Vast big; int k = size_in("dimension", 0, 4); if (k == 4) { linear(1101, {2}, 2, 1101); return; } if (k == 0) linear(40, {130}, 70, 40); else if (k == 1) linear(300, {5}, 3, 300); else if (k == 2) linear(2, {1030}, 3, 2); else linear(3, {2}, 1030, 3); }
ENTRY e_linear_real() { Vast big; linear(16, {784}, 10, 16); }
