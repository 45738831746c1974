#include "tools.h"
#include <dirent.h>
#include <dlfcn.h>
#include <fstream>
#include <image_transport/image_transport.h>
#include <iostream>
#include <opencv2/imgcodecs.hpp>
#include <pluginlib/class_list_macros.hpp>
#include <rct_ros_tools/target_finder_plugin.h>
#include <ros/ros.h>
#include <sys/stat.h>
#include <unistd.h>
#include <yaml-cpp/yaml.h>

// --- nothing is displayed: the frames are kept
namespace cv
{
void imshow(const String& window, InputArray m) { tools::shown().push_back({ window, m.getMat().clone() }); }
void namedWindow(const String&, int) {}
int waitKey(int) { return -1; }
void destroyWindow(const String&) {}
void destroyAllWindows() {}
}  // namespace cv

namespace tools
{
Finder& finder()
{
  static Finder f;
  return f;
}
std::vector<Shown>& shown()
{
  static std::vector<Shown> s;
  return s;
}
namespace
{
struct ExactTarget : public rct_image_tools::Target
{
  double scale = 1;
  rct_optimizations::Correspondence2D3D::Set createCorrespondences(const TargetFeatures& f) const override
  {
    rct_optimizations::Correspondence2D3D::Set out;
    for (auto& p : f)
    {
      if (p.first >= finder().points.size())
        throw std::runtime_error("no such feature");
      rct_optimizations::Correspondence2D3D x;
      x.in_image = p.second.at(0);
      x.in_target = finder().points[p.first] * scale;
      out.push_back(x);
    }
    return out;
  }
};
struct ExactFinder : public rct_image_tools::TargetFinder
{
  ExactTarget t;
  TargetFeatures findTargetFeatures(const cv::Mat& m) const override
  {
    const int id = imageId(m);
    finder().asked.push_back(id);
    if (id < 0 || id >= int(finder().seen.size()))
      throw std::runtime_error("no target in this image");
    const Seen& s = finder().seen[std::size_t(id)];
    if (s.kind == Seen::THROWS)
      throw std::runtime_error("target not found");
    return s.kind == Seen::NOTHING ? TargetFeatures() : s.features;
  }
  cv::Mat drawTargetFeatures(const cv::Mat& m, const TargetFeatures& f) const override
  {
    ++finder().drawn;
    cv::Mat r = m.clone();
    if (finder().mark)
      markFeatures(r, f);
    return r;
  }
  const rct_image_tools::Target& target() const override { return t; }
};
}  // namespace
}  // namespace tools
namespace verif
{
class ExactFinder : public rct_ros_tools::TargetFinderPlugin
{
public:
  void init(const YAML::Node& config) override
  {
    auto f = std::make_shared<tools::ExactFinder>();
    f->t.scale = config["scale"].as<double>();
    finder_ = f;
  }
};
}  // namespace verif
PLUGINLIB_EXPORT_CLASS(verif::ExactFinder, rct_ros_tools::TargetFinderPlugin)

namespace tools
{
static const int W = 160, H = 120;
cv::Mat image(Case& c, int id)
{
  cv::Mat m(H, W, CV_8UC3);
  const int a = c.i(0, 255), b = c.i(0, 255), k = c.i(1, 60);
  for (int y = 0; y < H; ++y)
    for (int x = 0; x < W; ++x)
      m.at<cv::Vec3b>(y, x) = cv::Vec3b(uchar((a + x * k / 40) % 250), uchar((b + y) % 250), uchar((id * 37 + (x / 8) * 5 + (y / 8) * 11) % 250));
  // the number, in the corners of the picture and a check that it is one
  for (auto p : { cv::Point(0, 0), cv::Point(W - 1, 0), cv::Point(0, H - 1) })
    m.at<cv::Vec3b>(p) = cv::Vec3b(uchar(id & 255), uchar((id >> 8) & 255), 253);
  return m;
}
int imageId(const cv::Mat& m)
{
  if (m.type() != CV_8UC3 || m.cols != W || m.rows != H)
    return -1;
  std::vector<int> v;
  for (auto p : { cv::Point(0, 0), cv::Point(W - 1, 0), cv::Point(0, H - 1) })
  {
    const cv::Vec3b x = m.at<cv::Vec3b>(p);
    if (x[2] == 253)
      v.push_back(x[0] | (x[1] << 8));
  }
  return v.size() >= 2 && v[0] == v[1] ? v[0] : -1;
}

void markFeatures(cv::Mat& m, const TargetFeatures& f)
{
  for (auto& x : f)
    for (auto& p : x.second)
      m.at<cv::Vec3b>(int(p.y()), int(p.x())) = cv::Vec3b(1, 2, 251);
}

Dir::Dir()
{
  static int n = 0;
  path = pbt::scratch() + "/tool" + std::to_string(getpid()) + "_" + std::to_string(n++);
  mkdir(path.c_str(), 0755);
}
Dir::~Dir() { removeDir(path); }
void removeDir(const std::string& d)
{
  if (pbt::scratch().size() < 5 || d.compare(0, pbt::scratch().size(), pbt::scratch()) != 0)
    return;
  if (DIR* h = opendir(d.c_str()))
  {
    while (dirent* e = readdir(h))
    {
      const std::string n = e->d_name;
      if (n == "." || n == "..")
        continue;
      const std::string p = d + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
        removeDir(p);
      else
        unlink(p.c_str());
    }
    closedir(h);
  }
  rmdir(d.c_str());
}
std::string writeSet(Case& c, const std::string& dir, const std::vector<Entry>& e)
{
  mkdir(dir.c_str(), 0755);
  std::ofstream list(dir + "/set.yaml");
  for (std::size_t i = 0; i < e.size(); ++i)
  {
    const std::string n = std::to_string(i), im = "i" + n + ".bmp", po = "p" + n + ".yaml";
    list << "- image: " << im << "\n  pose: " << po << "\n";
    if (e[i].fault != Entry::NO_IMAGE && !cv::imwrite(dir + "/" + im, e[i].image))
      c.fail("harness: image not written");
    if (e[i].fault == Entry::NO_POSE)
      continue;
    std::ofstream p(dir + "/" + po);
    p.precision(17);
    const Eigen::Quaterniond q(e[i].pose.linear());
    const Vector3d t = e[i].pose.translation();
    p << "x: " << t.x() << "\ny: " << t.y() << "\nz: " << t.z() << "\nqx: " << q.x() << "\nqy: " << q.y() << "\nqz: " << q.z() << "\n";
    if (e[i].fault != Entry::BAD_POSE)
      p << "qw: " << q.w() << "\n";
  }
  if (e.empty())
    list << "[]\n";
  return dir + "/set.yaml";
}

static ros::NodeHandle::Params& params() { return *ros::NodeHandle::server(); }
void clearParams() { params().clear(); }
void setParam(const std::string& key, const XmlRpcValue& v) { params()[key] = v; }
XmlRpcValue getParam(const std::string& key) { return params().at(key); }
void dropParam(const std::string& key) { params().erase(key); }
std::vector<std::string> paramKeys()
{
  std::vector<std::string> k;
  for (auto& p : params())
    k.push_back(p.first);
  return k;
}
XmlRpcValue poseParam(const Isometry3d& p)
{
  XmlRpcValue v;
  const Eigen::Quaterniond q(p.linear());
  v["x"] = p.translation().x(), v["y"] = p.translation().y(), v["z"] = p.translation().z();
  v["qx"] = q.x(), v["qy"] = q.y(), v["qz"] = q.z(), v["qw"] = q.w();
  return v;
}
XmlRpcValue intrParam(const CameraIntrinsics& k)
{
  XmlRpcValue v;
  v["fx"] = k.values[0], v["fy"] = k.values[1], v["cx"] = k.values[2], v["cy"] = k.values[3];
  return v;
}
XmlRpcValue finderParam(double scale)
{
  XmlRpcValue v;
  v["type"] = "verif::ExactFinder", v["scale"] = scale;
  return v;
}

Program::Program(const std::string& name)
{
  std::string n = "RCT_PROGRAM_" + name;
  const char* p = getenv(n.c_str());
  if (!p)
    throw std::logic_error("harness: " + n + " is not set");
  h = dlopen(p, RTLD_NOW | RTLD_LOCAL);
  if (!h)
    throw std::logic_error(std::string("harness: ") + dlerror());
}
Program::~Program()
{
  if (h)
    dlclose(h);
}
void* Program::symbol(const std::string& m) const { return dlsym(h, m.c_str()); }

Run run(Case& c, const std::string& name)
{
  Run r;
  shown().clear();
  finder().asked.clear();
  finder().drawn = 0;
  rosshim::log().clear();
  Program p(name);
  std::ostringstream out;
  std::streambuf* old = std::cout.rdbuf(out.rdbuf());
  std::ostringstream err;
  std::streambuf* olde = std::cerr.rdbuf(err.rdbuf());
  std::string arg0 = name;
  char* argv[] = { &arg0[0], nullptr };
  bool none = false;
  try
  {
    if (void* f = p.symbol("_Z16rct_program_mainiPPc"))
      r.code = reinterpret_cast<int (*)(int, char**)>(f)(1, argv);
    else if (void* f0 = p.symbol("_Z16rct_program_mainv"))
      r.code = reinterpret_cast<int (*)()>(f0)();
    else
      none = true;
  }
  catch (...)
  {
    r.code = -1000;
  }
  std::cout.rdbuf(old);
  std::cerr.rdbuf(olde);
  // (code of the program)
  rosshim::services().clear();
  rosshim::subscribers().clear();
  if (none)
    throw std::logic_error("harness: no main function in " + name);
  r.out = out.str();
  std::istringstream in(r.out);
  for (std::string s; std::getline(in, s);)
    r.lines.push_back(s);
  return r;
}

std::vector<double> numbers(const std::string& s)
{
  std::vector<double> v;
  for (std::size_t i = 0; i < s.size();)
  {
    const char ch = s[i];
    const bool sign = (ch == '-' || ch == '+') && i + 1 < s.size() && (isdigit(s[i + 1]) || s[i + 1] == '.' || s.compare(i + 1, 3, "nan") == 0);
    const bool word = i > 0 && (isalnum(s[i - 1]) || s[i - 1] == '_');
    if (!word && (isdigit(ch) || sign || s.compare(i, 3, "nan") == 0 || s.compare(i, 3, "inf") == 0))
    {
      char* e;
      v.push_back(std::strtod(s.c_str() + i, &e));
      i = std::max(i + 1, std::size_t(e - s.c_str()));
    }
    else
      ++i;
  }
  return v;
}
bool has(const Run& r, const std::string& what) { return r.out.find(what) != std::string::npos; }
std::size_t find(Case& c, const Run& r, const std::string& what, std::size_t from)
{
  for (std::size_t i = from; i < r.lines.size(); ++i)
    if (r.lines[i].find(what) != std::string::npos)
      return i;
  c.fail("'" + what + "' is not in the output (from line " + std::to_string(from) + " of " + std::to_string(r.lines.size()) + "), return code " + std::to_string(r.code) +
         (rosshim::log().error ? ", error: " + rosshim::log().lines.back().second : ""));
  return 0;
}
Isometry3d transform(Case& c, const Run& r, std::size_t heading)
{
  Isometry3d t = Isometry3d::Identity();
  for (int i = 0; i < 4; ++i)
  {
    if (heading + 1 + std::size_t(i) >= r.lines.size())
      c.fail("output ends within a transform");
    const std::vector<double> n = numbers(r.lines[heading + 1 + std::size_t(i)]);
    if (n.size() != 4)
      c.fail("not a row of a transform: " + r.lines[heading + 1 + std::size_t(i)]);
    for (int k = 0; k < 4; ++k)
      t.matrix()(i, k) = n[std::size_t(k)];
  }
  return t;
}
void number(Case& c, double s, double want, double abs, const std::string& what)
{
  if (std::isnan(want) && std::isnan(s))
    return;
  c.near(s, want, 1e-5 * std::abs(want) + abs, what);
}
void pose(Case& c, const Isometry3d& s, const Isometry3d& want, double rot, double trans, const std::string& what)
{
  const double dr = (s.linear() - want.linear()).norm(), dt = (s.translation() - want.translation()).norm();
  if (!(dr <= rot + 2e-5) || !(dt <= trans + 1e-5 * want.translation().norm()))
  {
    std::ostringstream o;
    o << what << ": printed transform differs by " << dr << " (rotation) and " << dt << " (translation) from\n" << want.matrix();
    c.fail(o.str());
  }
}
void frame(Case& c, const cv::Mat& got, const cv::Mat& image, const std::vector<Vector2d>& at, const cv::Scalar& colour, const std::string& what)
{
  cv::Mat want = image.clone();
  int near = 0;
  for (auto& p : at)
  {
    if (!(std::abs(p.x()) < 1e6) || !(std::abs(p.y()) < 1e6))
      return;
    cv::circle(want, cv::Point2d(p.x(), p.y()), 3, colour);
    const double fx = std::abs(p.x() - std::floor(p.x()) - 0.5), fy = std::abs(p.y() - std::floor(p.y()) - 0.5);
    near += fx < 0.01 || fy < 0.01;
  }
  if (got.type() != want.type() || got.size() != want.size())
    c.fail(what + ": frame of another size or type than the image");
  int differ = 0;
  for (int y = 0; y < want.rows; ++y)
    for (int x = 0; x < want.cols; ++x)
      differ += got.at<cv::Vec3b>(y, x) != want.at<cv::Vec3b>(y, x);
  c.check(differ <= near * 40, what + ": displayed frame is not the image with the reprojections of the result (" + std::to_string(differ) + " pixels differ, " +
                                   std::to_string(near) + " points at the edge of a pixel)");
}
}  // namespace tools
