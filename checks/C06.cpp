// C06: camera models against explicit equations, inverse and numerical derivatives.
#include "camgen.h"
using namespace vm;
using namespace camgen;
using namespace ov_core;

// the standard five-step fixed-point inverse of the radial-tangential model: what accuracy that method reaches
static double radtan_inverse_error(const VectorXd &k, const Vector2d &n) {
  Vector2d uv = project(false, k, n);
  double x0 = (uv(0) - k(2)) / k(0), y0 = (uv(1) - k(3)) / k(1), x = x0, y = y0;
  for (int i = 0; i < 5; i++) {
    double r2 = x * x + y * y, ic = 1.0 / (1 + (k(5) * r2 + k(4)) * r2);
    double dx = 2 * k(6) * x * y + k(7) * (r2 + 2 * x * x), dy = k(6) * (r2 + 2 * y * y) + 2 * k(7) * x * y;
    x = (x0 - dx) * ic;
    y = (y0 - dy) * ic;
  }
  return (Vector2d(x, y) - n).norm();
}

PBT_PART(model, 64, 1500000, 20000000) {
  bool equi = false;
  int w = 0, h = 0;
  VectorXd k = gen_calib(t, c, equi, w, h);
  auto cam = make(equi, w, h);
  cam->set_value(k);
  if (t.flip(0.3)) { // intrinsics changed online: only the last value counts
    VectorXd k2 = k;
    for (int i = 0; i < 4; i++)
      k2(i) += t.sym(5);
    for (int i = 4; i < 8; i++)
      k2(i) += t.sym(0.002);
    Vector2d probe = gen_ray(t, c, equi, k);
    (void)cam->distort_d(probe);
    cam->set_value(k2);
    k = k2;
    c.label("re-set");
  }
  Vector2d n = gen_ray(t, c, equi, k);
  c.nontrivial(n.norm() > 1e-3);
  if (c.want_sample)
    c.sample << (equi ? "fisheye " : "radtan ") << str(k) << " ray " << str(n);
  REQUIRE(cam->w() == w && cam->h() == h, "image size");
  pbt::near_mat(c, cam->get_value(), k, 1e-300, "stored intrinsics");
  Vector2d uv = project(equi, k, n);
  Vector2d got = cam->distort_d(n);
  double ptol = 1e-6 * (1 + uv.norm()) + 4e-7 * k(0) * n.norm();
  pbt::near_mat(c, got, uv, ptol, "projection");
  Eigen::Vector2f gf = cam->distort_f(n.cast<float>());
  pbt::near_mat(c, gf.cast<double>(), uv, ptol, "projection (float)");
  cv::Point2f gc = cam->distort_cv(cv::Point2f((float)n(0), (float)n(1)));
  pbt::near_mat(c, Vector2d(gc.x, gc.y), uv, ptol, "projection (cv)");
  // the derivative of the projection
  MatrixXd Hn, Hz;
  cam->compute_distort_jacobian(n, Hn, Hz);
  MatrixXd Rn = numdiff([&](const VectorXd &d) { return VectorXd(project(equi, k, n + d)); }, 2, 2, n.norm() < 1e-2 ? 1e-4 : 1e-3 * n.norm());
  pbt::near_mat(c, Hn, Rn, 4e-9 * k(0), "derivative with respect to the ray");
  VectorXd sc(8);
  sc << 1, 1, 1, 1, 1e-2, 1e-2, 1e-2, 1e-2;
  MatrixXd Rz = numdiff([&](const VectorXd &d) { return VectorXd(project(equi, k + sc.cwiseProduct(d), n)); }, 8, 2, 0.1);
  for (int i = 0; i < 8; i++)
    Rz.col(i) /= sc(i);
  pbt::near_mat(c, Hz, Rz, 2e-10 * k(0) * (1 + std::pow(n.norm(), 5)), "derivative with respect to the intrinsics");
  // inverse (exact pixel in, original ray out)
  double smin = std::min(stretch(equi, k, n.norm()), 1.0);
  double tol = (3e-6 + 2e-7 * uv.norm() / k(0) * 10) * (1 + n.squaredNorm()) / smin;
  if (!equi)
    tol += 2 * radtan_inverse_error(k, n);
  Vector2d back = cam->undistort_d(uv);
  pbt::near_mat(c, back, n, tol, "inverse projection");
  Eigen::Vector2f bf = cam->undistort_f(uv.cast<float>());
  pbt::near_mat(c, bf.cast<double>(), n, tol, "inverse projection (float)");
  cv::Point2f bc = cam->undistort_cv(cv::Point2f((float)uv(0), (float)uv(1)));
  pbt::near_mat(c, Vector2d(bc.x, bc.y), n, tol, "inverse projection (cv)");
  c.metric("inverse_error", (back - n).norm());
  // the OpenCV views of the calibration agree with the stored vector
  cv::Matx33d K = cam->get_K();
  cv::Vec4d D = cam->get_D();
  REQUIRE(K(0, 0) == k(0) && K(1, 1) == k(1) && K(0, 2) == k(2) && K(1, 2) == k(3) && K(0, 1) == 0 && K(1, 0) == 0 && K(2, 0) == 0 &&
              K(2, 1) == 0 && K(2, 2) == 1,
          "camera matrix view differs from the stored intrinsics");
  for (int i = 0; i < 4; i++)
    REQUIRE(D(i) == k(4 + i), "distortion view differs from the stored intrinsics");
}
