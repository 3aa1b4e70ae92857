// Points, lines, planes, triangles, boxes, polygons, transformations, interpolation.
#include "hh.hpp"
#include "nrlib/geometry/point.hpp"
#include "nrlib/geometry/line.hpp"
#include "nrlib/geometry/plane.hpp"
#include "nrlib/geometry/triangle.hpp"
#include "nrlib/geometry/box.hpp"
#include "nrlib/geometry/polygon.hpp"
#include "nrlib/geometry/transformation.hpp"
#include "nrlib/geometry/interpolation.hpp"
using namespace hh;
using namespace NRLib;
static Point pt(In& in) { double x = in.d(), y = in.d(), z = in.d(); return Point(x, y, z); }
static Line ln(In& in) {
  Point p = pt(in), q = pt(in); bool a = in.i() != 0, b = in.i() != 0;
  if (a && b) return Line::Segment(p, q);
  if (a) return Line::Ray(p, q - p);
  if (!b) return Line::InfiniteLine(p, q - p);
  return Line(p, q, a, b);
}
static Out& put(Out& o, const Point& p) { return o.d(p.x).d(p.y).d(p.z); }
static void go(const std::string& c, In& in, Out& o) {
  if (c == "lines") {
    Line l = ln(in), m = ln(in); Point x = pt(in), a, b;
    double d = l.FindDistance(m, a, b);
    o.d(d); put(o, a); put(o, b); o.d(l.FindDistance(m));
    o.i(l.IsParallel(m, 1e-9)).i(l.IsOverLapping(m));
    o.i(l.IntersectXY(m, a)); put(o, a);
    o.i(l.IntersectXY(m, a, true)); put(o, a);
    o.d(l.GetLength()).d(l.FindDistance(x)); put(o, l.FindProjection(x));
    bool right; o.d(l.FindDistanceAndSide(x, right)).i(right).i(l.IsPointOnLine(x));
    o.d(x.GetAngle(m.GetPt1())).d(x.LeftFromLineXY(l.GetPt1(), l.GetPt2()));
    Line copy; copy.SetPt(l.GetPt1(), l.GetPt2(), l.IsEndPt1(), l.IsEndPt2());
    if (copy.FindDistance(x) != l.FindDistance(x)) throw std::runtime_error("SetPt");
  }
  else if (c == "plane") {
    Point a1 = pt(in), a2 = pt(in), a3 = pt(in), x = pt(in); Line l = ln(in); Point b1 = pt(in), b2 = pt(in), b3 = pt(in), at;
    Plane p(a1, a2, a3), q(b1, b2, b3);
    put(o, p.GetNormalVector()); o.d(p.FindDistance(x)); put(o, p.FindProjection(x)); o.i(p.IsOnPositiveSide(x)).i(p.IsPointOnPlane(x));
    o.i(p.IsParallel(l, 1e-9)); o.i(p.FindIntersection(l, at, 1e-9)); put(o, at);
    Plane r(p.GetRefPoint(), b1 - b2 + p.GetNormalVector() * 5.0);       // any other normal
    o.d(std::fabs(p.GetNormalVector().Dot(a1 - x) ));
    Line i = p.FindIntersection(q); put(o, i.GetPt1()); put(o, i.GetPt2()); o.i(i.IsEndPt1() || i.IsEndPt2());
    if (r.FindDistance(a1) > 1e-9) throw std::runtime_error("reference point");
  }
  else if (c == "tri") {
    Point a = pt(in), b = pt(in), d = pt(in); Line l = ln(in); Triangle t(a, b, d); Point at, near; Triangle u; u.SetCornerPoints(a, b, d);
    o.i(t.FindIntersection(l, at, true)); put(o, at); o.i(u.FindIntersection(l, at, false)); put(o, at);
    o.d(t.FindNearestPoint(l, near)); put(o, near);
  }
  else if (c == "box") {
    Point ref = pt(in); double lx = in.d(), ly = in.d(), lz = in.d(), ang = in.d(); Point x = pt(in); Line l = ln(in);
    Box b(ref, lx, ly, lz, ang);
    if (ang == 0.0) { Box c2(ref.x, ref.y, ref.z, ref.x + lx, ref.y + ly, ref.z + lz); b.Swap(c2); }
    o.i(b.IsInside(x)).d(b.FindDistance(x));
    for (int k = 0; k < 8; k++) put(o, b.GetCorner(k & 1, (k >> 1) & 1, (k >> 2) & 1));
    std::vector<Point> v = b.FindIntersections(l); o.u(v.size()); for (auto& p : v) put(o, p);
  }
  else if (c == "poly") {
    size_t n = in.u(); Polygon p; std::vector<Point> all;
    for (size_t i = 0; i < n; i++) { double x = in.d(), y = in.d(); all.push_back(Point(x, y, 0)); p.AddPoint(all.back()); }
    Polygon s(n); for (size_t i = 0; i < n; i++) s[i] = all[i];
    o.u(p.GetSize()).i(p.IsCounterclockwise()).i(p.IsConvex()).d(p.GetCircumferenceXY());
    double e[4]; p.XYExtent(e[0], e[1], e[2], e[3]); for (double x : e) o.d(x);
    size_t m = in.u();
    for (size_t i = 0; i < m; i++) {
      double x = in.d(), y = in.d(); size_t r = 0, l = 0; p.TangentPointPoly(Point(x, y, 0), r, l);
      o.i(p.IsInsidePolygonXY(x, y)).u(r).u(l);
      if (s.IsInsidePolygonXY(Point(x, y, 3)) != p.IsInsidePolygonXY(x, y)) throw std::runtime_error("inside test");
    }
    for (size_t i = 0; i < n; i++) { o.d(p.DistanceBetweenPointsXY(0, i)).d(p.DistanceBetweenPointsXY(i, n / 2)); if (p.FindPointPosition(all[i]) != i) throw std::runtime_error("FindPointPosition"); }
    if (p.FindPointPosition(Point(1e9, 0, 0)) != n) throw std::runtime_error("FindPointPosition of another point");
    std::vector<Point> q; p.GetPoints(q, true); if (q.size() != n + 1 || q[n] != all[0]) throw std::runtime_error("closed points");
    if (in.i()) { double x, y, a, b, g; s.MinEnclosingRectangle(x, y, a, b, g); o.d(x).d(y).d(a).d(b).d(g); }
    p.MakeConvex(); o.w("|"); for (size_t i = 0; i < p.GetSize(); i++) o.d(p[i].x).d(p[i].y);
  }
  else if (c == "move") {
    Point x = pt(in); Transformation t; size_t n = in.u();
    for (size_t i = 0; i < n; i++) {
      std::string k = in.w(); double a = in.d(), b = in.d();
      if (k == "T1") t.TranslateX(a); else if (k == "T2") t.TranslateY(a); else if (k == "T3") t.TranslateZ(a);
      else if (k == "S1") t.StretchX(a); else if (k == "S2") t.StretchY(a); else if (k == "S3") t.StretchZ(a);
      else if (k == "M1") t.MirrorYZ(); else if (k == "M2") t.MirrorXZ(); else if (k == "M3") t.MirrorXY();
      else if (k == "H1") t.ShearYZ(a, b); else if (k == "H2") t.ShearXZ(a, b); else if (k == "H3") t.ShearXY(a, b);
      else if (k == "R1") t.RotateX(a); else if (k == "R2") t.RotateY(a); else if (k == "R3") t.RotateZ(a);
      else throw std::runtime_error("unknown movement " + k);
    }
    t.Transform(x); put(o, x);
  }
  else if (c == "curve") {
    size_t n = in.u(); std::vector<double> x, y, q; for (size_t i = 0; i < n; i++) { x.push_back(in.d()); y.push_back(in.d()); }
    size_t m = in.u(); for (size_t i = 0; i < m; i++) q.push_back(in.d());
    std::vector<double> a = Interpolation::Interpolate1D(x, y, q, "linear"); for (double v : a) o.d(v);
    if (n > 2) {
      a = Interpolation::Interpolate1D(x, y, q, "spline"); for (double v : a) o.d(v);
      a = Interpolation::Interpolate1D(x, y, q, "spline", 77.0); for (double v : a) o.d(v);
    }
  }
  else throw std::runtime_error("unknown command " + c);
}
int main() { return loop(go); }
