// C21: the public rotation and matrix utilities agree with their mathematical definition on every input.
// units: utility
#include "common.hpp"
#include <math_lib.hpp>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
Q anyRot(pbt::Src &s) {
    switch (s.range(0, 5)) {
    case 0: { const double a = s.pick<double>({0, M_PI / 2, M_PI, -M_PI / 2}); return expq(a * s.pick<V3>({V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1)})); }
    case 1: { const double a = s.logReal(1e-7, 0.1); return expq(a * dir(s)); }
    case 2: { const double a = M_PI - s.logReal(1e-7, 0.1); return expq(a * dir(s)); }
    default: return rot(s);
    }
}
// the quaternion of the standard yaw, pitch, roll sequence: R_wb = Rz(yaw) Ry(pitch) Rx(roll)
Q fromEuler(double roll, double pitch, double yaw) { return expq(V3(0, 0, yaw)) * expq(V3(0, pitch, 0)) * expq(V3(roll, 0, 0)); }

void algebra(pbt::Src &s, pbt::Ctx &x) {
    const V3 v = d(f(vec(s, s.pick<double>({1, 100, 1e-3})))), w = d(f(vec(s, 1)));
    const Q p = d(f(anyRot(s))), q = d(f(anyRot(s)));
    x.nontrivial(v.norm() > 1e-6 && angle(p, Q::Identity()) > 1e-3);
    x.desc << "v " << str(v) << " w " << str(w) << " p " << str(p) << " q " << str(q);
    // cross product matrix, in single and double precision
    const Matrix33 S = Utility::SkewSymmetricMatrix(fV3(f(v)));
    PBT_CHECK((S.cast<double>() * w - v.cross(w)).norm() <= 1e-5 * (1e-6 + v.norm() * w.norm()), "skew matrix of " << str(v) << " times " << str(w) << " is " << str(S.cast<double>() * w));
    const M3 Sd = Utility::SkewSymmetricMatrix(v);
    PBT_CHECK((Sd * w - v.cross(w)).norm() <= 1e-12 * (1e-6 + v.norm() * w.norm()), "double skew matrix of " << str(v) << " times " << str(w));
    // an expression instead of a vector
    const Matrix33 Se = Utility::SkewSymmetricMatrix((2 * fV3(f(v))).eval() - fV3(f(v)));
    PBT_CHECK((Se.cast<double>() * w - v.cross(w)).norm() <= 2e-5 * (1e-6 + v.norm() * w.norm()), "skew matrix of an expression");
    // left and right product matrices, coefficients in the order w, x, y, z
    auto four = [](const Q &a) { return Eigen::Vector4d(a.w(), a.x(), a.y(), a.z()); };
    const Eigen::Vector4d pq = four(p * q);
    PBT_CHECK((Utility::Qleft(f(p)).cast<double>() * four(q) - pq).norm() < 2e-6, "left product matrix of " << str(p) << " times " << str(q));
    PBT_CHECK((Utility::Qright(f(q)).cast<double>() * four(p) - pq).norm() < 2e-6, "right product matrix of " << str(q) << " times " << str(p));
    PBT_CHECK((Utility::Qleft(p) * four(q) - pq).norm() < 1e-12, "double left product matrix of " << str(p) << " times " << str(q));
    PBT_CHECK((Utility::Qright(q) * four(p) - pq).norm() < 1e-12, "double right product matrix of " << str(q) << " times " << str(p));
    // homogeneous transform
    const Matrix44 T = Utility::TransformMatrix(f(p), f(v));
    const V3 y = (T.cast<double>() * Eigen::Vector4d(w.x(), w.y(), w.z(), 1)).head<3>();
    PBT_CHECK((y - (p * w + v)).norm() <= 1e-5 * (1 + v.norm()), "transform by " << str(p) << " and " << str(v) << " maps " << str(w) << " to " << str(y));
    PBT_CHECK(T.row(3).cast<double>().isApprox(Eigen::RowVector4d(0, 0, 0, 1)), "last row of the transform is " << T.row(3));
    PBT_CHECK(Utility::ComputeTranslationMagnitude(f(v)) <= v.norm() * (1 + 1e-5) + 1e-30 && Utility::ComputeTranslationMagnitude(f(v)) >= v.norm() * (1 - 1e-5) - 1e-30, "translation magnitude of " << str(v));
}

void increments(pbt::Src &s, pbt::Ctx &x) {
    const V3 th = d(f(V3(s.logReal(1e-8, 0.5) * dir(s))));
    const double a = th.norm();
    x.nontrivial(a > 1e-4);
    x.label(a < 1e-4 ? "tiny" : a < 0.05 ? "small" : "large");
    x.desc << "theta " << str(th);
    Q dq = d(Utility::DeltaQ(fV3(f(th))));
    PBT_CHECK(std::isfinite(dq.w()) && dq.norm() > 0.5, "increment of " << str(th) << " is " << str(dq));
    // first order in the half angle
    PBT_CHECK(angle(dq.normalized(), expq(th)) <= a * a * a / 10 + 5e-7, "increment of " << str(th) << " is " << str(dq) << ", off by " << angle(dq.normalized(), expq(th)));
    Q dd = Utility::DeltaQ(th);
    PBT_CHECK(angle(dd.normalized(), expq(th)) <= a * a * a / 10 + 1e-14, "double increment of " << str(th) << " is " << str(dd));
    Vector3 r = f(th);
    const double m = Utility::ComputeRotationMagnitude(r);
    PBT_CHECK(std::isfinite(m) && std::fabs(std::cos(m) - std::cos(a)) <= a * a * a * a / 4 + 3e-6, "magnitude of the small rotation " << str(th) << " is " << m);
}

void magnitude(pbt::Src &s, pbt::Ctx &x) {
    const Q q = anyRot(s);
    const double a = angle(q, Q::Identity());
    x.nontrivial(a > 1e-3);
    x.label(a < 1e-3 ? "near 0" : a > M_PI - 1e-3 ? "near pi" : "between");
    x.desc << "q " << str(q);
    Quaternion fq = f(q);
    const double m = Utility::ComputeRotationMagnitude(fq);
    // the arc cosine limits the accuracy next to 0 and pi
    PBT_CHECK(std::isfinite(m) && m >= 0 && m <= M_PI + 1e-6 && std::fabs(std::cos(m) - std::cos(a)) <= 3e-6, "rotation magnitude of " << str(q) << " is " << m << ", expected " << a);
    Matrix33 R(fq);
    const double mr = Utility::ComputeRotationMagnitude(R);
    PBT_CHECK(std::isfinite(mr) && mr >= 0 && mr <= M_PI + 1e-6 && std::fabs(std::cos(mr) - std::cos(a)) <= 3e-6, "rotation magnitude of the matrix of " << str(q) << " is " << mr << ", expected " << a);
    // any rotation vector has a finite magnitude
    Vector3 r = f(V3(s.logReal(1e-6, 20) * dir(s)));
    const double mv = Utility::ComputeRotationMagnitude(r);
    PBT_CHECK(std::isfinite(mv) && mv >= 0 && mv <= M_PI + 1e-6, "magnitude of the rotation vector " << str(d(r)) << " is " << mv);
}

void euler(pbt::Src &s, pbt::Ctx &x) {
    const double roll = s.real(-M_PI, M_PI), yaw = s.real(-M_PI, M_PI);
    const double pitch = s.chance(1, 4) ? s.pick<double>({M_PI / 2, -M_PI / 2}) : s.chance(1, 4) ? s.pick<double>({1, -1}) * (M_PI / 2 - s.logReal(1e-6, 1e-1)) : s.real(-M_PI / 2, M_PI / 2);
    const Q q = fromEuler(roll, pitch, yaw);
    x.nontrivial(std::fabs(pitch) > 1e-3);
    x.label(std::fabs(pitch) > M_PI / 2 - 1e-3 ? "gimbal lock" : "regular");
    x.desc << "roll " << roll << " pitch " << pitch << " yaw " << yaw;
    const V3 e = d(Utility::QuaternionToEuler(f(q))) * M_PI / 180;
    PBT_CHECK(e.allFinite(), "angles of roll " << roll << " pitch " << pitch << " yaw " << yaw << " are " << str(e));
    PBT_CHECK(std::fabs(std::sin(e.y()) - std::sin(pitch)) < 3e-6, "pitch of roll " << roll << " pitch " << pitch << " yaw " << yaw << " is " << e.y());
    PBT_CHECK(std::fabs(e.y()) <= M_PI / 2 + 1e-6 && std::fabs(e.x()) <= M_PI + 1e-6 && std::fabs(e.z()) <= M_PI + 1e-6, "angles out of range: " << str(e));
    const double c = std::cos(pitch);
    // the angles rebuild the attitude; next to the singularity only their pitch is determined
    if (c > 1e-3) {
        const double err = angle(fromEuler(e.x(), e.y(), e.z()), q);
        PBT_CHECK(err < 1e-5 + 2e-6 / c, "roll " << roll << " pitch " << pitch << " yaw " << yaw << " read back as " << str(e));
    }
}

void inverse(pbt::Src &s, pbt::Ctx &x) {
    const int n = s.range(1, s.chance(1, 10) ? 40 : 8), deficit = s.chance(1, 3) ? s.range(0, n) : 0;
    MX A(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = s.real(-1, 1);
    Eigen::HouseholderQR<MX> qr(A + 1e-3 * MX::Identity(n, n));
    MX U = qr.householderQ();
    VX ev(n), iv(n);
    const double lo = s.pick<double>({0.1, 1e-2, 1}), hi = s.pick<double>({1, 10, 2});
    for (int i = 0; i < n; ++i) { ev(i) = i < deficit ? 0 : s.logReal(lo, std::max(lo, hi)); iv(i) = i < deficit ? 0 : 1 / ev(i); }
    const MX S = U * ev.asDiagonal() * U.transpose(), want = U * iv.asDiagonal() * U.transpose();
    const double cond = ev.maxCoeff() / lo;
    x.nontrivial(n > 1 && deficit < n);
    x.label(deficit ? "rank deficient" : "full rank");
    x.label("large", n > 8);
    x.desc << "n " << n << " deficit " << deficit << " eigenvalues " << ev.transpose();
    if (deficit) {
        // rounding turns the null eigenvalues into tiny ones of either sign: keep the exactly representable cases
        MX D = MX::Zero(n, n), W = MX::Zero(n, n);
        for (int i = 0; i < n; ++i) { D(i, i) = ev(i); W(i, i) = iv(i); }
        const MX got = Utility::Inverse(D.cast<float>()).cast<double>();
        PBT_CHECK((got - W).cwiseAbs().maxCoeff() <= 1e-4 / lo, "pseudo inverse of diagonal " << ev.transpose() << " is\n" << got);
        return;
    }
    const MX got = Utility::Inverse(S.cast<float>()).cast<double>();
    PBT_CHECK(got.rows() == n && got.cols() == n && got.allFinite(), "inverse of\n" << S << "\nis\n" << got);
    PBT_CHECK((got - want).cwiseAbs().maxCoeff() <= 3e-6 * n * (1 + cond) / lo, "inverse of\n" << S << "\nis\n" << got << "\nexpected\n" << want);
    PBT_CHECK((got - got.transpose()).cwiseAbs().maxCoeff() <= 1e-5 * n / lo, "inverse of a symmetric matrix is not symmetric:\n" << got);
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C21", "the operands are not all zero or identity (vectors over 1e-6, rotations over 1e-3 rad, matrices over 1x1)",
            {"rotation increments are first-order in the half angle by design: the deviation allowed is of third order",
             "the accuracy next to 0, pi and the pitch singularity is that of single-precision trigonometry"},
            {{"algebra", algebra, 400000, 8000000}, {"increments", increments, 400000, 8000000}, {"magnitude", magnitude, 400000, 8000000},
             {"euler", euler, 400000, 8000000}, {"inverse", inverse, 60000, 1000000}}};
}
