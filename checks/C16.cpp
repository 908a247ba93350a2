// C16: nullspace projection and measurement compression keep the information about the state.
#include "pbt.h"
#include "vmath.h"
#include "update/UpdaterHelper.h"
using namespace vm;
using ov_msckf::UpdaterHelper;

// sparse, block structured matrices as the updaters build them, or dense ones
static MatrixXd gen_hx(pbt::Tape &t, int m, int k, pbt::Ctx &c) {
  MatrixXd H = MatrixXd::Zero(m, k);
  int kind = t.range(0, 4);
  double s = t.logreal(1e-3, 1e3);
  if (kind == 0) {
    H = gen_mat(t, m, k, 1.0);
  } else if (kind == 1) { // two rows touch one 6-block each, plus a shared calibration block
    c.label("hx:blocks");
    for (int r = 0; r < m; r++) {
      int nb = std::max(1, k / 6), b = t.range(0, nb - 1);
      for (int j = 6 * b; j < std::min(k, 6 * b + 6); j++)
        H(r, j) = t.sym(1);
      for (int j = std::max(0, k - 2); j < k; j++)
        H(r, j) = t.sym(1);
    }
  } else if (kind == 2) { // zero rows, zero columns
    c.label("hx:zeros");
    H = gen_mat(t, m, k, 1.0);
    for (int j = 0; j < k; j++)
      if (t.flip(0.3))
        H.col(j).setZero();
    for (int r = 0; r < m; r++)
      if (t.flip(0.3))
        H.row(r).setZero();
  } else if (kind == 3) { // rank deficient
    c.label("hx:lowrank");
    int q = t.range(1, std::max(1, std::min(m, k) - 1));
    H = gen_mat(t, m, q) * gen_mat(t, q, k);
  } else { // already reduced below some row
    c.label("hx:triangular");
    H = gen_mat(t, m, k);
    for (int r = 0; r < m; r++)
      for (int j = 0; j < std::min(r, k); j++)
        H(r, j) = 0;
  }
  VectorXd cs(k);
  for (int j = 0; j < k; j++)
    cs(j) = t.flip(0.2) ? t.logreal(1e-3, 1e3) : 1.0;
  return s * H * cs.asDiagonal();
}
static double amax(const MatrixXd &m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0.0; }
// entries of the information compared relative to their column norms
static void near_info(pbt::Ctx &c, const MatrixXd &A, const MatrixXd &B, const VectorXd &cn, double tol, const std::string &w) {
  for (int i = 0; i < A.rows(); i++)
    for (int j = 0; j < A.cols(); j++)
      pbt::near(c, A(i, j), B(i, j), tol * (cn(i) * cn(j)) + 1e-300, w);
}

PBT_PART(nullspace, 3500, 150000, 2000000) {
  int n = t.flip(0.75) ? 3 : t.range(1, 4);
  int m = t.flip(0.1) ? n : n + t.range(1, t.flip(0.2) ? 40 : 12);
  int k = t.range(1, 30);
  MatrixXd Hx = gen_hx(t, m, k, c);
  MatrixXd Hf = gen_mat(t, m, n);
  int fk = t.range(0, 4);
  if (fk == 1) { // weak depth direction
    Hf.col(n - 1) *= t.logreal(1e-4, 1);
    c.label("hf:weak");
  } else if (fk == 2) { // rows of one camera do not see one direction
    for (int r = 0; r < m; r++)
      for (int j = 0; j < n; j++)
        if (t.flip(0.3))
          Hf(r, j) = 0;
    c.label("hf:zeros");
  } else if (fk == 3) { // leading rows zero
    int z = t.range(0, std::max(0, m - n - 1));
    Hf.topRows(z).setZero();
    c.label("hf:leading-zero");
  }
  Hf *= t.logreal(1e-2, 1e3);
  VectorXd r = gen_mat(t, m, 1, t.logreal(1e-3, 100));
  Eigen::JacobiSVD<MatrixXd> svd(Hf, Eigen::ComputeThinU);
  double smax = svd.singularValues()(0), smin = svd.singularValues()(std::min(m, n) - 1);
  if (!(smin > 1e-7 * smax)) {
    c.label("hf:rank-deficient (only sizes checked)");
  }
  MatrixXd Hf0 = Hf, Hx0 = Hx;
  VectorXd r0 = r;
  UpdaterHelper::nullspace_project_inplace(Hf, Hx, r);
  REQUIRE(Hx.rows() == m - n && r.rows() == m - n, "rows after projection " << Hx.rows() << "/" << r.rows() << " expected " << m - n);
  REQUIRE(Hx.cols() == k, "columns after projection");
  REQUIRE(m == n || (Hx.allFinite() && r.allFinite()), "non-finite system");
  if (smin > 1e-7 * smax) {
    MatrixXd U = svd.matrixU();
    MatrixXd P = MatrixXd::Identity(m, m) - U * U.transpose();
    double kap = smax / smin, tol = 1e-12 * std::max(1.0, kap) + 1e-12;
    VectorXd cn = Hx0.colwise().norm().transpose();
    near_info(c, Hx.transpose() * Hx, Hx0.transpose() * P * Hx0, cn, tol, "information matrix of the projected system");
    VectorXd a = Hx.transpose() * r, b = Hx0.transpose() * (P * r0);
    for (int i = 0; i < k; i++)
      pbt::near(c, a(i), b(i), tol * cn(i) * r0.norm() + 1e-300, "information vector of the projected system");
    pbt::near(c, r.squaredNorm(), r0.dot(P * r0), tol * r0.squaredNorm() + 1e-300, "squared projected residual");
    c.nontrivial(m > n && amax(Hx0) > 0);
  }
  if (c.want_sample)
    c.sample << "Hf " << m << "x" << n << " cond " << smax / smin << ", Hx " << m << "x" << k << " -> " << Hx.rows() << " rows";
}

PBT_PART(compress, 5200, 100000, 1500000) {
  int k = t.range(1, t.flip(0.2) ? 40 : 12);
  int m = t.flip(0.2) ? t.range(1, k) : k + t.range(0, 60);
  if (t.flip(0.05))
    m = k;
  MatrixXd H = gen_hx(t, m, k, c);
  VectorXd r = gen_mat(t, m, 1, t.logreal(1e-3, 100));
  MatrixXd H0 = H;
  VectorXd r0 = r;
  UpdaterHelper::measurement_compress_inplace(H, r);
  REQUIRE(H.cols() == k, "columns after compression");
  REQUIRE(H.rows() == r.rows(), "rows of matrix and residual differ after compression");
  if (m <= k) {
    REQUIRE(H.rows() == m && H == H0 && r == r0, "a system that is not tall was changed");
    c.label("left alone");
  } else {
    REQUIRE(H.rows() == k, "rows after compression " << H.rows() << " expected " << k);
    REQUIRE(H.allFinite() && r.allFinite(), "non-finite compressed system");
    VectorXd cn = H0.colwise().norm().transpose();
    near_info(c, H.transpose() * H, H0.transpose() * H0, cn, 1e-12, "information matrix of the compressed system");
    VectorXd a = H.transpose() * r, b = H0.transpose() * r0;
    for (int i = 0; i < k; i++)
      pbt::near(c, a(i), b(i), 1e-12 * cn(i) * r0.norm() + 1e-300, "information vector of the compressed system");
    REQUIRE(r.norm() <= r0.norm() * (1 + 1e-12), "compressed residual longer than the stacked one");
    c.nontrivial(m > k);
    c.label("compressed");
  }
  // the posterior of a later update
  if (m <= 60 && k <= 12 && amax(H0) > 0) {
    VectorXd ps(k);
    for (int i = 0; i < k; i++)
      ps(i) = t.logreal(1e-2, 1);
    double cmax = std::max(1e-300, (double)H0.colwise().norm().maxCoeff());
    MatrixXd P = ps.asDiagonal();
    P /= cmax * cmax; // comparable prior and measurement information
    double s2 = 1.0;
    MatrixXd L1 = P.inverse() + H0.transpose() * H0 / s2, L2 = P.inverse() + H.transpose() * H / s2;
    VectorXd x1 = L1.ldlt().solve(H0.transpose() * r0), x2 = L2.ldlt().solve(H.transpose() * r);
    for (int i = 0; i < k; i++)
      pbt::near(c, x2(i), x1(i), 1e-9 * (x1.norm() + 1e-12 * r0.norm() / cmax) + 1e-300, "posterior mean after compression");
  }
  if (c.want_sample)
    c.sample << "H " << m << "x" << k << " -> " << H.rows() << "x" << H.cols();
}
