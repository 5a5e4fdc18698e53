// C19: tag families, and tags, boards, checkerboards and circle grids rendered by the harness.
#include <Eigen/Dense>
#include "common.hpp"
#include <aslam_apriltag2/TagDetector.h>
#include <aslam_apriltag2/Tag16h5.h>
#include <aslam_apriltag2/Tag25h7.h>
#include <aslam_apriltag2/Tag25h9.h>
#include <aslam_apriltag2/Tag36h11.h>
#include <aslam_apriltag2/Tag36h9.h>
#include <aslam_apriltag2/Homography33.h>
#include <aslam_apriltag2/GLineSegment2D.h>
#include <aslam_apriltag2/UnionFindSimple.h>
#include <aslam_apriltag2/Gaussian.h>
#include <aslam_apriltag2/GrayModel.h>
#include <aslam_apriltag2/MathUtil.h>
#include <aslam_cameras/targets.hpp>
#include <aslam_cameras_april/GridCalibrationTargetAprilgrid.hpp>
#include <opencv2/imgproc/imgproc.hpp>
VF_MAIN
using namespace vf; using namespace aslam::cameras; typedef Eigen::Vector2d V2; typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3; typedef unsigned long long U;
struct Fam { const char* n; const AprilTags::TagCodes* c; };
static std::vector<Fam> fams() { static std::vector<Fam> f{{"36h11", &AprilTags::tagCodes36h11}, {"36h9", &AprilTags::tagCodes36h9}, {"25h9", &AprilTags::tagCodes25h9}, {"25h7", &AprilTags::tagCodes25h7}, {"16h5", &AprilTags::tagCodes16h5}}; return f; }
static int bitsOf(const AprilTags::TagCodes& c) { return (int)std::lround(std::sqrt((double)c.bits)); }
// the grid described in the header: bit d*d-1 is top left, bit 0 bottom right, turned by a quarter counter-clockwise
static U turn(U w, int d) { auto at = [&](int row, int col) { return (w >> (d * d - 1 - (row * d + col))) & 1; }; U o = 0; for (int row = 0; row < d; ++row) for (int col = 0; col < d; ++col) { U b = at(col, d - 1 - row); o |= b << (d * d - 1 - (row * d + col)); } return o; }
VF_GROUP(rotate, 60, 2000) { auto& m = mon(); for (int d : {2, 3, 4, 5, 6, 7}) { U w = ((U)rng.next()) & ((d * d >= 64 ? 0 : (U)1 << (d * d)) - 1); U a = AprilTags::TagFamily::rotate90(w, d); U b = turn(w, d), c = turn(turn(turn(w, d), d), d); m.check("C19.family/rotate", a == b || a == c, "rotate90"); m.check("C19.family/rotate4", AprilTags::TagFamily::rotate90(AprilTags::TagFamily::rotate90(AprilTags::TagFamily::rotate90(a, d), d), d) == w, ""); }
  U x = ((U)rng.next() << 31) ^ rng.next(), y = ((U)rng.next() << 31) ^ rng.next(); m.check("C19.family/distance", AprilTags::TagFamily::hammingDistance(x, y) == __builtin_popcountll(x ^ y) && AprilTags::TagFamily::popCountReal(x) == __builtin_popcountll(x), ""); m.evaluation(x); }
// every code, turned and damaged
static void decodeOne(const Fam& f, AprilTags::TagFamily& fam, int id, int rot, U flips, int rec) {
  auto& m = mon(); int d = bitsOf(*f.c), e = __builtin_popcountll(flips); U w = f.c->codes[id] ^ flips; for (int k = 0; k < (4 - rot) % 4; ++k) w = AprilTags::TagFamily::rotate90(w, d); AprilTags::TagDetection det; fam.decode(det, w);
  bool ok = det.id == id && det.hammingDistance == e && det.rotation == rot && (U)det.code == f.c->codes[id] && (U)det.obsCode == w && det.good == (e <= rec); m.check(std::string("C19.decode/") + f.n, ok, "code " + std::to_string(id) + " turned " + std::to_string(rot) + " with " + std::to_string(e) + " bits flipped is " + std::to_string(det.id) + " turned " + std::to_string(det.rotation) + " distance " + std::to_string(det.hammingDistance) + " good " + std::to_string(det.good));
}
VF_GROUP(decode, 587, 587) {
  for (auto& f : fams()) { int n = f.c->codes.size(); if (caseno >= n && n < 587) continue; const bool big = n > 600; const int id = big ? rng.i(0, n - 1) : (int)caseno % n; if (big && caseno % 4) continue; AprilTags::TagFamily fam(*f.c, 1 + caseno % 2); mon().check("C19.family/settings", fam.bits == f.c->bits && fam.dimension == bitsOf(*f.c) && fam.minimumHammingDistance == f.c->minHammingDistance && fam.blackBorder == 1 + (int)caseno % 2, f.n); int rec = 1, cap = (f.c->minHammingDistance - 1) / 2; if (rng.b()) { rec = rng.i(0, cap); fam.setErrorRecoveryBits(rec); } else if (rng.b()) { double v = rng.pick(std::vector<double>{0, 0.25, 0.5, 1}); fam.setErrorRecoveryFraction(v); rec = (int)(cap * v); }
    for (int rot = 0; rot < 4; ++rot) { decodeOne(f, fam, id, rot, 0, rec); int nf = 3; if (!big && rot == (int)caseno % 4) for (int b = 0; b < f.c->bits; ++b) decodeOne(f, fam, id, rot, (U)1 << b, rec); for (int k = 0; k < nf; ++k) { U fl = 0; int e = rng.i(1, cap); while (__builtin_popcountll(fl) < e) fl |= (U)1 << rng.i(0, f.c->bits - 1); decodeOne(f, fam, id, rot, fl, rec); } }
    { U w = f.c->codes[id]; int worst = 99, with = -1; for (int k = 0; k < 4; ++k, w = turn(w, bitsOf(*f.c))) for (int j = 0; j < n; ++j) if (j != id || k) { int g = __builtin_popcountll(w ^ f.c->codes[j]); if (g < worst) worst = g, with = j; } mon().check(std::string("C19.separation/") + f.n, worst >= (int)f.c->minHammingDistance, "codes " + std::to_string(id) + " and " + std::to_string(with)); }
    { U w = (((U)rng.next() << 31) ^ rng.next()) & (((U)1 << f.c->bits) - 1); int best = 99; for (U c : f.c->codes) { U x = w; for (int k = 0; k < 4; ++k) { best = std::min(best, __builtin_popcountll(x ^ c)); x = turn(x, bitsOf(*f.c)); } } AprilTags::TagDetection det; fam.decode(det, w); mon().check("C19.decode/nearest", det.hammingDistance == best && det.good == (best <= rec) && det.id >= 0 && det.id < n && (U)det.code == f.c->codes[det.id], f.n); mon().evaluation(hmix(fnv(f.n), w ^ caseno)); } }
}
// rendering
struct Scene { std::function<double(double, double)> f; };
static V2 ap(const M3& H, double x, double y) { V3 v = H * V3(x, y, 1); return v.head<2>() / v[2]; }
static cv::Mat render(Rng& r, const M3& H, int w, int h, const std::function<double(double, double)>& f, double noise, int ss = 3) {
  M3 I = H.inverse(); cv::Mat im(h, w, CV_8UC1); double gx = r.u(-0.1, 0.1) / w, gy = r.u(-0.1, 0.1) / h, lo = r.u(0.03, 0.2), hi = r.u(0.75, 0.95); uint64_t seed = r.next() | 1;
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double s = 0; for (int a = 0; a < ss; ++a) for (int b = 0; b < ss; ++b) { V3 v = I * V3(x + (a + 0.5) / ss - 0.5, y + (b + 0.5) / ss - 0.5, 1); s += f(v[0] / v[2], v[1] / v[2]); } s = lo + (hi - lo) * s / (ss * ss); s *= 1 + gx * (x - w / 2) + gy * (y - h / 2); seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; double n = ((seed & 0xffff) + ((seed >> 16) & 0xffff) + ((seed >> 32) & 0xffff)) / 65536.0 - 1.5; im.at<unsigned char>(y, x) = std::max(0.0, std::min(255.0, std::round(255 * s + noise * 2 * n))); }
  return im;
}
// homography of a board (x right, y up) seen by a pinhole camera: scale pixels per board unit at (cx, cy) of the board
static M3 homography(Rng& r, double cx, double cy, double scale, int w, int h, double tilt, double jitter) {
  double f = 800, dist = f / scale; V3 ax = V3(r.n(), r.n(), 0).normalized(); M3 R = Eigen::AngleAxisd(r.u(-1, 1) * tilt, ax).toRotationMatrix() * Eigen::AngleAxisd(r.u(-M_PI, M_PI), V3::UnitZ()).toRotationMatrix() * Eigen::Vector3d(1, -1, -1).asDiagonal(); M3 K; K << f, 0, w / 2.0 + r.u(-jitter, jitter), 0, f, h / 2.0 + r.u(-jitter, jitter), 0, 0, 1; M3 A; A.col(0) = R.col(0); A.col(1) = R.col(1); A.col(2) = V3(0, 0, dist) - R * V3(cx, cy, 0); return K * A;
}
static double cellOf(U code, int d, int border, double x, double y) {   // x, y in [0, 1), y up
  int dd = d + 2 * border, c = (int)std::floor(x * dd), r = (int)std::floor((1 - y) * dd); if (c < border || r < border || c >= dd - border || r >= dd - border) return 0; return (code >> (d * d - 1 - ((r - border) * d + (c - border)))) & 1;
}
VF_GROUP(tags, 60, 1500) {
  auto& m = mon(); auto fs = fams(); const Fam& f = fs[rng.b(0.5) ? 0 : rng.i(0, 4)]; int id = rng.i(0, f.c->codes.size() - 1), border = rng.i(1, 2), d = bitsOf(*f.c), dd = d + 2 * border; double cell = rng.u(5, 13), half = cell * dd / 2; int w = (int)(2 * half * 1.9 + 40 + rng.i(0, 30)), h = w + rng.i(-10, 30); M3 H = homography(rng, 0, 0, half, w, h, 0.7, 10); U flips = 0; if (rng.b(0.3)) flips = (U)1 << rng.i(0, f.c->bits - 1); U code = f.c->codes[id] ^ flips; double noise = rng.pick(std::vector<double>{0, 1, 3});
  auto scene = [&](double x, double y) { if (std::abs(x) < 1 && std::abs(y) < 1) return cellOf(code, d, border, (x + 1) / 2, (y + 1) / 2); double q = std::max(std::abs(x), std::abs(y)); return q < 1.6 ? 1.0 : 0.6; }; cv::Mat im = render(rng, H, w, h, scene, noise); std::string how = std::string(f.n) + " tag " + std::to_string(id) + " cell " + std::to_string(cell) + " border " + std::to_string(border) + " noise " + std::to_string(noise) + (flips ? " one bit flipped" : "");
  AprilTags::TagDetector det(*f.c, border); auto ds = det.extractTags(im); int hits = 0, others = 0; double worst = 0;
  for (auto& t : ds) { V2 c = ap(H, 0, 0); bool here = t.id == id && (V2(t.cxy.first, t.cxy.second) - c).norm() < half; if (!here) { ++others; continue; } ++hits; m.check("C19.tags/code", t.good && t.hammingDistance == (flips ? 1 : 0) && (U)t.code == f.c->codes[id], how); const double X[4] = {-1, 1, 1, -1}, Y[4] = {-1, -1, 1, 1}; double e = 0; for (int k = 0; k < 4; ++k) e = std::max(e, (V2(t.p[k].first, t.p[k].second) - ap(H, X[k], Y[k])).norm()); worst = std::max(worst, e); m.check("C19.tags/corner", e < 0.8, "a corner is " + std::to_string(e) + " px off, " + how); for (int k = 0; k < 4; ++k) { auto q = t.interpolate(X[k], Y[k]); m.near("C19.tags/homography", V2(q.first, q.second), V2(t.p[k].first, t.p[k].second), 1e-2 * (1 + half * 0.02), how); } V2 ori = ap(H, 1, -1) - ap(H, -1, -1); m.check("C19.tags/orientation", std::abs(std::remainder(t.getXYOrientation() - std::atan2(ori[1], ori[0]), 2 * M_PI)) < 0.05, how); }
  m.check("C19.tags/detected", hits == 1, std::to_string(hits) + " detections of " + how); if (f.c->bits == 36) m.check("C19.tags/spurious", others == 0, how); if (hits) m.tag("corner error below " + std::string(worst < 0.1 ? "0.1" : worst < 0.2 ? "0.2" : worst < 0.4 ? "0.4" : "0.8"));
  // an image inside a larger one is the same image
  if (rng.b(0.4)) { cv::Mat big(h + 20, w + 33, CV_8UC1, cv::Scalar(128)); cv::Mat roi = big(cv::Rect(7, 5, w, h)); im.copyTo(roi); auto d2 = det.extractTags(roi); bool same = d2.size() == ds.size(); for (size_t k = 0; same && k < ds.size(); ++k) same = d2[k].id == ds[k].id && d2[k].p[0] == ds[k].p[0] && d2[k].p[2] == ds[k].p[2]; m.check("C19.tags/region", same, how); }
  m.evaluation(hmix(fnv(f.n), id * 31 + hits) ^ hashm(H));
}
VF_GROUP(blank, 20, 500) {   // no tags
  auto& m = mon(); int w = rng.i(3, 160), h = rng.i(3, 120), kind = rng.i(0, 3); double fx = rng.u(0.01, 0.4), fy = rng.u(0.01, 0.4); uint64_t s = rng.next() | 1; cv::Mat im(h, w, CV_8UC1); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; double v = kind == 0 ? 128 : kind == 1 ? 128 + 120 * std::sin(fx * x) * std::sin(fy * y) : kind == 2 ? 255 * ((int)(fx * x) % 2) : 100 + (double)(s % 40); im.at<unsigned char>(y, x) = (unsigned char)v; }
  AprilTags::TagDetector det(AprilTags::tagCodes36h11, 2); m.check("C19.blank/none", det.extractTags(im).empty(), "image without tags"); m.evaluation(s ^ w * 7919 ^ h);
}
// April grids as kalibr prints them
VF_GROUP(board, 26, 600) {
  auto& m = mon(); int R = rng.i(1, 4), C = rng.i(1, 4); double size = std::exp(rng.u(-3, 0)), sp = rng.u(0.25, 0.5); GridCalibrationTargetAprilgrid::AprilgridOptions o; o.doSubpixRefinement = rng.b(0.7); o.maxSubpixDisplacement2 = rng.pick(std::vector<double>{1.5, 0.02, 4}); o.minTagsForValidObs = rng.pick(std::vector<int>{4, 1, 2, 3, 6}); o.minBorderDistance = rng.pick(std::vector<double>{4, 0, 20}); o.blackTagBorder = rng.i(1, 2); bool wild = rng.b(0.2); GridCalibrationTargetAprilgrid t(R, C, size, sp, o);
  double pitch = size * (1 + sp), W = C * pitch - size * sp, Hh = R * pitch - size * sp; int w = rng.i(380, 560), h = rng.i(300, 460); double scale = std::min(w, h) * rng.u(0.55, 1.1) / std::max(W, Hh); int dd = 6 + 2 * o.blackTagBorder; double cellpx = scale * size / dd; M3 H = homography(rng, W / 2, Hh / 2, scale, w, h, 0.5, rng.b() ? 5 : 60);
  auto& codes = AprilTags::tagCodes36h11.codes; int wildId = rng.i(R * C, codes.size() - 1);
  auto scene = [&](double x, double y) { if (x < -2 * sp * size || y < -2 * sp * size || x > W + 2 * sp * size || y > Hh + 2 * sp * size) return 0.6; int i = (int)std::floor(x / pitch), j = (int)std::floor(y / pitch); double a = x - i * pitch, b = y - j * pitch; if (i >= 0 && j >= 0 && i < C && j < R && a < size && b < size) { int id = j * C + i; return cellOf(codes[wild && id == 0 ? wildId : id], 6, o.blackTagBorder, a / size, b / size); } bool cx = a >= size || (i == -1 && a >= pitch - sp * size), cy = b >= size || (j == -1 && b >= pitch - sp * size); return cx && cy ? 0.0 : 1.0; };
  cv::Mat im = render(rng, H, w, h, scene, rng.pick(std::vector<double>{0, 1, 2})); std::string how = std::to_string(R) + "x" + std::to_string(C) + " tags, cell " + std::to_string(cellpx) + " px, border " + std::to_string(o.blackTagBorder) + ", " + std::to_string(w) + "x" + std::to_string(h);
  Eigen::MatrixXd pts; std::vector<bool> seen; if (rng.b()) seen.assign(rng.i(0, t.size()), true); bool ok = t.computeObservation(im, pts, seen);
  // what the detector sees, put through the documented rules
  AprilTags::TagDetector det(AprilTags::tagCodes36h11, o.blackTagBorder); auto ds = det.extractTags(im); std::map<int, AprilTags::TagDetection> keep; bool dup = false; for (auto& d : ds) { bool out = !d.good || d.id >= R * C; for (int k = 0; k < 4; ++k) out |= d.p[k].first < o.minBorderDistance || d.p[k].second < o.minBorderDistance || d.p[k].first > w - o.minBorderDistance || d.p[k].second > h - o.minBorderDistance; if (!out) { dup |= keep.count(d.id); keep[d.id] = d; } } m.check("C19.board/duplicates", !dup, how);
  // ground truth: every tag well inside the image and large enough is found
  for (int id = 0; id < R * C; ++id) { bool inside = true; int i = id % C, j = id / C; double small = 1e9; V2 q[4]; for (int k = 0; k < 4; ++k) { double x = i * pitch + ((k == 1 || k == 2) ? size : 0), y = j * pitch + (k >= 2 ? size : 0); q[k] = ap(H, x, y); double mg = std::max(o.minBorderDistance + 2, 10.0); inside &= q[k][0] > mg && q[k][1] > mg && q[k][0] < w - mg && q[k][1] < h - mg; } for (int k = 0; k < 4; ++k) small = std::min(small, (q[k] - q[(k + 1) % 4]).norm()); bool there = keep.count(id); if (wild && id == 0) m.check("C19.board/absent", !there, how); else if (inside && small > 5.5 * dd) { m.check("C19.board/tag", there, "tag " + std::to_string(id) + " of " + how); m.tag("tag in view"); } if (there) for (int k = 0; k < 4; ++k) m.check("C19.board/raw-corner", (V2(keep[id].p[k].first, keep[id].p[k].second) - q[k]).norm() < 1.0, how); }
  bool want = keep.size() >= (size_t)o.minTagsForValidObs; m.check("C19.board/success", ok == want, how + " with " + std::to_string(keep.size()) + " tags"); if (!ok || !want) { m.tag("too few tags"); m.evaluation(hashm(H)); return; }
  m.check("C19.board/shape", pts.rows() == (int)t.size() && pts.cols() == 2 && seen.size() == t.size(), how); if (pts.rows() != (int)t.size() || seen.size() != t.size()) return; std::vector<bool> mine(t.size(), false); std::vector<double> err;
  for (auto& x : keep) { int i = x.first % C, j = x.first / C; cv::Mat c(4, 2, CV_32F); for (int k = 0; k < 4; ++k) c.at<float>(k, 0) = x.second.p[k].first, c.at<float>(k, 1) = x.second.p[k].second; cv::Mat raw = c.clone(); if (o.doSubpixRefinement) cv::cornerSubPix(im, c, cv::Size(2, 2), cv::Size(-1, -1), cv::TermCriteria(cv::TermCriteria::EPS + cv::TermCriteria::MAX_ITER, 30, 0.1)); const int dr[4] = {0, 0, 1, 1}, dc[4] = {0, 1, 1, 0};
    for (int k = 0; k < 4; ++k) { size_t at = (2 * j + dr[k]) * 2 * C + 2 * i + dc[k]; V2 a(c.at<float>(k, 0), c.at<float>(k, 1)), b(raw.at<float>(k, 0), raw.at<float>(k, 1)); double dsp = (a - b).squaredNorm(); if (std::abs(dsp - o.maxSubpixDisplacement2) < 1e-4) { mine[at] = seen[at]; continue; } mine[at] = dsp <= o.maxSubpixDisplacement2; m.near("C19.board/corner", V2(pts.row(at)), a, 1e-3, how); V2 truth = ap(H, t.point(at)[0], t.point(at)[1]); double e = (V2(pts.row(at)) - truth).norm(); if (mine[at]) { err.push_back(e); m.check("C19.board/accuracy", e < 1.2, "corner " + std::to_string(at) + " is " + std::to_string(e) + " px off, " + how); } } }
  m.check("C19.board/observed", mine == seen, "observed corners of " + how); if (!err.empty()) { std::sort(err.begin(), err.end()); m.check("C19.board/median", err[err.size() / 2] < 0.4, "median error " + std::to_string(err[err.size() / 2]) + " " + how); m.tag(err[err.size() / 2] < 0.1 ? "median corner error below 0.1" : "median corner error below 0.4"); } m.evaluation(hashm(H));
}
// checkerboards and circle grids: the corners are those of the board, up to the symmetry of the pattern
template <class T> void pattern(Rng& r, T& t, int R, int C, double px, std::function<double(double, double)> scene, const std::string& how, double tol, bool must, int w, int h, const M3& H) {
  auto& m = mon(); cv::Mat im = render(r, H, w, h, scene, r.pick(std::vector<double>{0, 1, 2})); Eigen::MatrixXd pts; std::vector<bool> seen; bool ok = t.computeObservation(im, pts, seen); if (must) m.check("C19." + how + "/detected", ok, how + " " + std::to_string(R) + "x" + std::to_string(C) + " spacing " + std::to_string(px) + " px"); if (!ok) { m.tag(how + " not found"); return; } m.check("C19." + how + "/shape", pts.rows() == R * C && pts.cols() == 2 && seen == std::vector<bool>(R * C, true), how); if (pts.rows() != R * C) return; double best = 1e9; for (int s = 0; s < 8; ++s) { if ((s & 4) && R != C) continue; double e = 0; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) { int a = s & 4 ? j : i, b = s & 4 ? i : j; if (s & 1) a = R - 1 - a; if (s & 2) b = C - 1 - b; if ((s == 1 || s == 2 || s == 4 || s == 7)) continue; V3 p = t.point(a * C + b); e = std::max(e, (V2(pts.row(i * C + j)) - ap(H, p[0], p[1])).norm()); } if (s == 1 || s == 2 || s == 4 || s == 7) continue; best = std::min(best, e); } m.check("C19." + how + "/corners", best < tol, how + " corners off by " + std::to_string(best) + " px"); m.tag(how + " found"); m.evaluation(hashm(H));
}
VF_GROUP(checker, 14, 300) {
  int R = rng.i(3, 7), C = rng.i(3, 8); double s = rng.u(0.02, 0.1), s2 = rng.b() ? s : s * rng.u(0.8, 1.25); GridCalibrationTargetCheckerboard::CheckerboardOptions o; o.performFastCheck = rng.b(0.3); o.windowWidth = rng.pick(std::vector<int>{3, 5}); GridCalibrationTargetCheckerboard t(R, C, s, s2, o); double W = (C - 1) * s2, Hh = (R - 1) * s; int w = rng.i(400, 560), h = rng.i(340, 460); double scale = std::min(w, h) * rng.u(0.5, 0.68) / std::max((C + 1) * s2, (R + 1) * s); M3 H = homography(rng, Hh / 2, W / 2, scale, w, h, 0.3, 10);
  auto scene = [&](double x, double y) { int i = (int)std::floor(y / s2) + 1, j = (int)std::floor(x / s) + 1; if (i < 0 || j < 0 || i > C || j > R) return 1.0; return (i + j) % 2 ? 1.0 : 0.0; }; pattern(rng, t, R, C, scale * s, scene, "checkerboard", 0.5, false, w, h, H);
}
VF_GROUP(circles, 8, 250) {
  int R = rng.i(3, 6), C = rng.i(3, 6); bool as = rng.b(0.4); double s = rng.u(0.02, 0.1); GridCalibrationTargetCirclegrid::CirclegridOptions o; o.useAsymmetricCirclegrid = as; if (as) { C = rng.i(3, 4); R = 2 * rng.i(2, 4) + 1; } GridCalibrationTargetCirclegrid t(R, C, s, o); double mx = 0, my = 0; for (size_t i = 0; i < t.size(); ++i) mx = std::max(mx, t.point(i)[0]), my = std::max(my, t.point(i)[1]); int w = rng.i(400, 560), h = rng.i(340, 460); double scale = std::min(w, h) * rng.u(0.5, 0.65) / (std::max(mx, my) + 2 * s), rad = 0.3 * s; M3 H = homography(rng, mx / 2, (as ? -1 : 1) * my / 2, scale, w, h, 0.2, 10); if (as) H = H * V3(1, -1, 1).asDiagonal();
  auto scene = [&](double x, double y) { for (size_t i = 0; i < t.size(); ++i) { double dx = x - t.point(i)[0], dy = y - t.point(i)[1]; if (dx * dx + dy * dy < rad * rad) return 0.0; } return 1.0; }; pattern(rng, t, R, C, scale * s, scene, as ? "asymmetric circles" : "circles", 1.0, false, w, h, H);
}
// geometric helpers of the detector
VF_GROUP(helpers, 300, 8000) {
  auto& m = mon(); typedef std::pair<float, float> PF; M3 H = homography(rng, 0, 0, rng.u(20, 200), 640, 480, 0.9, 50); std::vector<PF> s, d; const double X[4] = {-1, 1, 1, -1}, Y[4] = {-1, -1, 1, 1}; for (int k = 0; k < 4; ++k) { s.push_back(PF(X[k], Y[k])); V2 q = ap(H, X[k], Y[k]); d.push_back(PF(q[0], q[1])); } PF oc(rng.u(0, 640), rng.u(0, 480)); Homography33 h(oc); h.setCorrespondences(s, d); for (int k = 0; k < 5; ++k) { double x = rng.u(-1.2, 1.2), y = rng.u(-1.2, 1.2); auto q = h.project(x, y); V2 want = ap(H, x, y); m.near("C19.helpers/homography", V2(q.first, q.second), want, 2e-2, "homography"); } m.check("C19.helpers/centre", h.getCXY() == oc, "");
  { double sz = rng.u(0.05, 2), fx = rng.u(300, 900), fy = rng.u(300, 900), px = 320, py = 240; V3 ax = V3(rng.n(), rng.n(), 0.3 * rng.n()).normalized(); M3 R = Eigen::AngleAxisd(rng.u(0.3, 0.9), ax).toRotationMatrix() * Eigen::AngleAxisd(rng.u(-3, 3), V3::UnitZ()).toRotationMatrix(); V3 tr(rng.u(-0.5, 0.5) * sz, rng.u(-0.5, 0.5) * sz, sz * rng.u(1.2, 3)); AprilTags::TagDetection t; bool front = true; std::vector<V2> px4; for (int k = 0; k < 4; ++k) { V3 p = R * V3(X[k] * sz / 2, Y[k] * sz / 2, 0) + tr; front &= p[2] > 0.2 * sz; t.p[k] = PF(fx * p[0] / p[2] + px, fy * p[1] / p[2] + py); px4.push_back(V2(t.p[k].first, t.p[k].second)); } if (front) { Eigen::Matrix4d T = t.getRelativeTransform(sz, fx, fy, px, py); V3 tt; M3 rr; t.getRelativeTranslationRotation(sz, fx, fy, px, py, tt, rr); V3 g = T.topRightCorner<3, 1>(); double e = 0; for (int k = 0; k < 4; ++k) { V3 p = T.topLeftCorner<3, 3>() * V3(X[k] * sz / 2, Y[k] * sz / 2, 0) + g; e = std::max(e, (V2(fx * p[0] / p[2] + px, fy * p[1] / p[2] + py) - px4[k]).norm()); } m.check("C19.helpers/relative-reprojection", e < 0.05, "reprojection " + std::to_string(e)); m.near("C19.helpers/relative", T.topLeftCorner<3, 3>(), R, 2e-2, "rotation"); m.near("C19.helpers/relative", g, tr, 2e-2 * sz, "translation"); m.near("C19.helpers/relative-axes", tt, V3(g[2], -g[0], -g[1]), 1e-9 * (1 + g.norm()), ""); m.check("C19.helpers/relative-rotation", (rr - T.topLeftCorner<3, 3>()).norm() < 1e-12, ""); } }
  { V2 p = rng.gvec(2) * 100, q = rng.gvec(2) * 100, u = rng.gvec(2).normalized(), v = rng.gvec(2).normalized(); double det = u[0] * v[1] - u[1] * v[0]; if (std::abs(det) > 0.1) { double a = ((q - p)[0] * v[1] - (q - p)[1] * v[0]) / det; V2 x = p + a * u; AprilTags::GLine2D l1(u[0], u[1], PF(p[0], p[1])), l2(v[0], v[1], PF(q[0], q[1])); auto g = l1.intersectionWith(l2); if (std::abs(x[0] + 1) > 1) m.near("C19.helpers/intersection", V2(g.first, g.second), x, 1e-3 * (1 + x.norm()), "lines"); }
    std::vector<AprilTags::XYWeight> pts; int n = rng.i(2, 30); double lo = 1e9, hi = -1e9; V2 nn(-u[1], u[0]); V2 base(rng.u(50, 500), rng.u(50, 400)); for (int k = 0; k < n; ++k) { double a = k == 0 ? 0 : rng.u(-40, 40); if (k == 1) a = 20; lo = std::min(lo, a); hi = std::max(hi, a); V2 x = base + a * u; pts.push_back(AprilTags::XYWeight(x[0], x[1], rng.u(0.1, 2))); } auto sg = AprilTags::GLineSegment2D::lsqFitXYW(pts); V2 a(sg.getP0().first, sg.getP0().second), b(sg.getP1().first, sg.getP1().second), A = base + lo * u, B = base + hi * u; m.check("C19.helpers/segment", std::min((a - A).norm() + (b - B).norm(), (a - B).norm() + (b - A).norm()) < 0.25, "segment fit"); }
  { int n = rng.i(1, 60); AprilTags::UnionFindSimple uf(n); std::vector<int> ref(n); for (int k = 0; k < n; ++k) ref[k] = k; for (int k = 0; k < n; ++k) { int a = rng.i(0, n - 1), b = rng.i(0, n - 1); int root = uf.connectNodes(a, b); int x = ref[a], y = ref[b]; for (int& z : ref) if (z == y) z = x; m.check("C19.helpers/union-root", uf.getRepresentative(a) == root && uf.getRepresentative(b) == root, ""); } for (int k = 0; k < 20; ++k) { int a = rng.i(0, n - 1), b = rng.i(0, n - 1); m.check("C19.helpers/union", (uf.getRepresentative(a) == uf.getRepresentative(b)) == (ref[a] == ref[b]) && uf.getSetSize(a) == std::count(ref.begin(), ref.end(), ref[a]), "union find"); } }
  { AprilTags::GrayModel g; V3 c = rng.gvec(3); double c0 = rng.n(); int n = rng.i(6, 30); for (int k = 0; k < n; ++k) { float x = rng.u(-1, 1), y = rng.u(-1, 1); g.addObservation(x, y, c[0] * x + c[1] * y + c[2] * x * y + c0); } double x = rng.u(-1, 1), y = rng.u(-1, 1), want = c[0] * x + c[1] * y + c[2] * x * y + c0; m.check("C19.helpers/gray-count", g.getNumObservations() == n, ""); if (n > 10) m.near("C19.helpers/gray", (double)g.interpolate(x, y), want, 1e-2 * (1 + c.norm() + std::abs(c0)), "intensity model"); }
  { double v = rng.u(-50, 50); double g = AprilTags::MathUtil::mod2pi(v); m.check("C19.helpers/angle", std::abs(g) <= M_PI + 1e-5 && std::abs(std::remainder(g - v, 2 * M_PI)) < 2e-5, "mod2pi"); double ref = rng.u(-9, 9); double q = AprilTags::MathUtil::mod2pi(ref, v); m.check("C19.helpers/angle-reference", std::abs(q - ref) <= M_PI + 1e-4 && std::abs(std::remainder(q - v, 2 * M_PI)) < 5e-5, "mod2pi"); }
  { int n = 2 * rng.i(0, 4) + 1; double sg = rng.u(0.3, 3); auto f = AprilTags::Gaussian::makeGaussianFilter(sg, n); double sum = 0; for (float v : f) sum += v; m.near("C19.helpers/gauss-sum", sum, 1.0, 1e-5, "filter"); for (int k = 0; k < n; ++k) { m.near("C19.helpers/gauss", (double)f[k] / f[n / 2], std::exp(-(k - n / 2) * (k - n / 2) / (2 * sg * sg)), 1e-5, "filter"); } int w = 2 * n + rng.i(1, 12), hh = 2 * n + rng.i(1, 12); AprilTags::FloatImage im(w, hh), src(w, hh); for (int y = 0; y < hh; ++y) for (int x = 0; x < w; ++x) src.set(x, y, rng.u()); im = src; im.filterFactoredCentered(f, f); for (int k = 0; k < 8; ++k) { int x = rng.i(n, w - 1 - n) , y = rng.i(n, hh - 1 - n); double want = 0; for (int a = -n / 2; a <= n / 2; ++a) for (int b = -n / 2; b <= n / 2; ++b) want += (double)f[a + n / 2] * f[b + n / 2] * src.get(x - a, y - b); m.near("C19.helpers/filtered", (double)im.get(x, y), want, 1e-5, "filtered image"); } }
  m.evaluation(hashm(H));
}
