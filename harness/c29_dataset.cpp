// C29: data sets on disk and sets of correspondences of several cameras.
#include "image.h"
#include <dirent.h>
#include <fstream>
#include <iomanip>
#include <opencv2/imgcodecs.hpp>
#include <opencv2/imgproc.hpp>
#include <rct_image_tools/target_finder.h>
#include <rct_ros_tools/data_set.h>
#include <ros/console.h>
#include <sys/stat.h>
#include <unistd.h>
#include <yaml-cpp/yaml.h>
using namespace geom;
using namespace rct_ros_tools;

namespace
{
// a fresh directory below the scratch directory of this process
std::string freshDir()
{
  static int n = 0;
  const std::string d = pbt::scratch() + "/set" + std::to_string(getpid()) + "_" + std::to_string(n++);
  mkdir(d.c_str(), 0755);
  return d;
}
void removeDir(const std::string& d)
{
  // only what lies below the scratch directory
  if (d.compare(0, pbt::scratch().size(), pbt::scratch()) != 0 || pbt::scratch().size() < 5)
    return;
  if (DIR* h = opendir(d.c_str()))
  {
    while (dirent* e = readdir(h))
    {
      const std::string n = e->d_name;
      if (n == "." || n == "..")
        continue;
      const std::string p = d + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
        removeDir(p);
      else
        unlink(p.c_str());
    }
    closedir(h);
  }
  rmdir(d.c_str());
}
struct Dir
{
  std::string path = freshDir();
  ~Dir() { removeDir(path); }
};
ExtrinsicDataSet anySet(Case& c, int max)
{
  ExtrinsicDataSet s;
  const int n = c.i(0, max);
  for (int i = 0; i < n; ++i)
  {
    cv::Mat m(c.i(1, 12), c.i(1, 12), CV_8UC3);
    cv::RNG rng(c.draw(1u << 20) + 1);
    rng.fill(m, cv::RNG::UNIFORM, 0, 256);
    s.images.push_back(m);
    s.tool_poses.push_back(anyIso(c, c.b(1, 5) ? c.logr(1e-6, 1e6) : 3.0));
  }
  return s;
}
void same(Case& c, const ExtrinsicDataSet& s, const ExtrinsicDataSet& r, const std::vector<int>& which)
{
  if (r.images.size() != which.size() || r.tool_poses.size() != which.size())
    c.fail("loaded " + std::to_string(r.images.size()) + " images and " + std::to_string(r.tool_poses.size()) + " poses instead of " + std::to_string(which.size()));
  for (std::size_t k = 0; k < which.size(); ++k)
  {
    const std::string at = "entry " + std::to_string(k) + ": ";
    c.check(img::sameImage(s.images[which[k]], r.images[k]), at + "image differs");
    const Isometry3d &a = s.tool_poses[which[k]], &b = r.tool_poses[k];
    c.check((a.translation() - b.translation()).norm() <= 1e-12 * (1 + a.translation().norm()), at + "position differs");
    c.check((a.linear() - b.linear()).norm() <= 1e-7, at + "orientation differs");
  }
}
std::vector<int> upTo(std::size_t n)
{
  std::vector<int> v;
  for (std::size_t i = 0; i < n; ++i)
    v.push_back(int(i));
  return v;
}
}  // namespace

PBT(C29, save_and_load, "data set of at least two entries", 1500, 30000)
{
  Dir d;
  // sequences of saves to the same directory: the last one counts
  const int saves = c.b(1, 3) ? c.i(1, 3) : 1;
  ExtrinsicDataSet s;
  std::string dir = d.path;
  if (c.b())
    dir += "/new";
  for (int i = 0; i < saves; ++i)
  {
    s = anySet(c, c.b(1, 6) ? 25 : 6);
    const ExtrinsicDataSet before = s;
    c.check(saveToDirectory(dir, s), "saving failed");
    c.check(s.images.size() == before.images.size(), "saving altered the data");
  }
  c.note("entries", s.images.size());
  c.note("saves", saves);
  c.nontrivial(s.images.size() > 1);
  boost::optional<ExtrinsicDataSet> r;
  const bool relative = c.b(1, 4);
  c.label(relative ? "file name without directory" : "full path");
  if (relative)
  {
    char cwd[4096];
    c.check(getcwd(cwd, sizeof cwd) != nullptr && chdir(dir.c_str()) == 0, "chdir");
    r = parseFromFile("data.yaml");
    if (chdir(cwd) != 0)
      c.fail("chdir back");
  }
  else
    r = parseFromFile(dir + "/data.yaml");
  c.check(bool(r), "saved data set not loaded");
  same(c, s, *r, upTo(s.images.size()));
}

PBT(C29, failed_save, "data set with entries, saved where it cannot be written completely", 600, 12000)
{
  Dir d;
  ExtrinsicDataSet s = anySet(c, 5);
  if (s.images.empty())
    c.discard();
  const int how = c.i(0, 4);
  static const char* names[] = { "parent missing", "images is a file", "poses is a file", "more images than poses", "data.yaml is a directory" };
  c.note("failure", names[how]);
  c.label(names[how]);
  c.nontrivial();
  std::string dir = d.path + "/x";
  if (how == 0)
    dir = d.path + "/no/such/parent";
  else if (how < 3)
  {
    mkdir(dir.c_str(), 0755);
    std::ofstream(dir + (how == 1 ? "/images" : "/poses")) << "x";
  }
  else if (how == 3)
    s.tool_poses.pop_back();
  else
  {
    mkdir(dir.c_str(), 0755);
    mkdir((dir + "/data.yaml").c_str(), 0755);
  }
  bool ok;
  try
  {
    ok = saveToDirectory(dir, s);
  }
  catch (const std::exception&)
  {
    ok = false;
  }
  c.check(!ok, std::string("saving reported success: ") + names[how]);
}

PBT(C29, damaged, "data set of at least two entries of which at least one is damaged", 1500, 30000)
{
  Dir d;
  const ExtrinsicDataSet s = anySet(c, 7);
  if (s.images.empty())
    c.discard();
  c.check(saveToDirectory(d.path, s), "saving failed");
  std::vector<int> good;
  int bad = 0;
  for (std::size_t i = 0; i < s.images.size(); ++i)
  {
    const std::string im = d.path + "/images/" + std::to_string(i) + ".png", po = d.path + "/poses/" + std::to_string(i) + ".yaml";
    const int k = c.b(1, 2) ? 0 : c.i(1, 9);
    switch (k)
    {
      case 0:
        good.push_back(int(i));
        continue;
      case 1:
        unlink(im.c_str());
        break;
      case 2:
        std::ofstream(im, std::ios::trunc) << "not an image";
        break;
      case 3:
        unlink(po.c_str());
        break;
      case 4:
        std::ofstream(po, std::ios::trunc) << "x: 1\ny: 2\n";
        break;
      case 5:
        std::ofstream(po, std::ios::trunc) << "x: 1\ny: 2\nz: [3\n";
        break;
      case 6:
        std::ofstream(po, std::ios::trunc) << "x: 1\ny: 2\nz: three\nqx: 0\nqy: 0\nqz: 0\nqw: 1\n";
        break;
      case 7:
        unlink(po.c_str());
        mkdir(po.c_str(), 0755);
        break;
      case 8:
        std::ofstream(po, std::ios::trunc) << "x: 1\ny: 2\nz: 3\nqx: 0\nqy: 0\nqz: 0\nqw: 0\n";
        break;
      default:
        std::ofstream(po, std::ios::trunc) << "";
    }
    ++bad;
  }
  c.note("entries", s.images.size());
  c.note("damaged", bad);
  c.nontrivial(bad > 0 && s.images.size() > 1);
  // also the list itself may be damaged
  const int list = c.b(1, 4) ? c.i(1, 6) : 0;
  c.note("list", list);
  const std::string f = d.path + "/data.yaml";
  if (list)
  {
    c.label("list damaged");
    switch (list)
    {
      case 1:
        unlink(f.c_str());
        break;
      case 6:
        unlink(f.c_str());
        mkdir(f.c_str(), 0755);
        break;
      case 2:
        std::ofstream(f, std::ios::app) << "- {image: images/0.png\n";
        break;
      case 3:
        std::ofstream(f, std::ios::app) << "\n- image: images/0.png\n";
        break;
      case 4:
        std::ofstream(f, std::ios::app) << "\n- [a, b]\n";
        break;
      default:
        std::ofstream(f, std::ios::trunc) << "image: images/0.png\npose: poses/0.yaml\n";
    }
    const auto r = parseFromFile(f);
    c.check(!r || (r->images.size() == r->tool_poses.size() && r->images.empty()), "damaged list was loaded");
    return;
  }
  rosshim::log() = rosshim::Log();
  const auto r = parseFromFile(f);
  if (!r)
  {
    c.label("refused");
    c.check(bad > 0, "intact data set refused");
    return;
  }
  // unreadable entries are left out, with a warning; the others stay paired and in order
  same(c, s, *r, good);
  if (bad)
    c.check(rosshim::log().warn + rosshim::log().error > 0, "entries left out silently");
}

PBT(C29, listed, "lists that name their files in another order, repeatedly or in other directories", 1000, 20000)
{
  // a list written by hand: any order, names, directories and further keys; an image with the pose beside it
  Dir d;
  const int n = c.i(1, c.b(1, 10) ? 40 : 6), files = c.i(1, n);
  static const char* dirs[] = { "", "images/", "a b/", "./", "x/../", "deep/er/", "a/../a/" };
  static const char* ext[] = { ".png", ".PNG", ".bmp", ".tiff", ".ppm" };
  static const char* stems[] = { "img", "0", "a.b", "-1", "with space", "10", "\xc3\xa9", "0x1", "1e3", "~", "true" };
  for (const char* k : { "/images", "/a b", "/x", "/deep", "/deep/er", "/a" })
    mkdir((d.path + k).c_str(), 0755);
  std::vector<std::string> im, po;
  ExtrinsicDataSet s;
  for (int i = 0; i < files; ++i)
  {
    const std::string u = c.b(1, 4) ? "" : std::to_string(c.i(0, 3));
    std::string name, e;
    do
    {
      name = std::string(dirs[c.i(0, 6)]) + stems[c.i(0, 10)] + u + (c.b(1, 3) ? std::to_string(im.size()) : "");
      e = ext[c.i(0, 4)];
      // a name may occur once; the spellings of a directory are told apart by the number
      name += "_" + std::to_string(i);
    } while (std::find(im.begin(), im.end(), name + e) != im.end());
    cv::Mat m(c.i(1, 9), c.i(1, 9), CV_8UC3);
    cv::RNG rng(c.draw(1u << 20) + 1);
    rng.fill(m, cv::RNG::UNIFORM, 0, 256);
    cv::Mat stored = m;
    if (c.b(1, 5))
    {
      // a grey picture is read as a colour picture of the same shades
      cv::extractChannel(m, stored, 0);
      cv::cvtColor(stored, m, cv::COLOR_GRAY2BGR);
      if (e == ".ppm")
        e = ".png";
    }
    c.check(cv::imwrite(d.path + "/" + name + e, stored), "harness: image not written");
    im.push_back(name + e);
    s.images.push_back(m);
    s.tool_poses.push_back(anyIso(c, 3.0));
    const Eigen::Quaterniond r(s.tool_poses.back().linear());
    const Vector3d t = s.tool_poses.back().translation();
    po.push_back(std::string(dirs[c.i(0, 6)]) + stems[c.i(0, 10)] + "_" + std::to_string(i) + (c.b(1, 4) ? "" : ".yaml"));
    std::ofstream o(d.path + "/" + po.back());
    o << std::setprecision(17);
    const double v[7] = { t.x(), t.y(), t.z(), r.x(), r.y(), r.z(), r.w() };
    static const char* keys[] = { "x", "y", "z", "qx", "qy", "qz", "qw" };
    const auto order = c.perm(7);
    const bool flow = c.b(1, 3);
    o << (flow ? "{" : "");
    for (int k = 0; k < 7; ++k)
      o << (flow && k ? ", " : "") << keys[order[k]] << ": " << v[order[k]] << (flow ? "" : "\n");
    o << (flow ? "}\n" : "");
  }
  std::vector<int> which;
  const std::string list = d.path + "/" + (c.b() ? "data.yaml" : "my list");
  {
    std::ofstream o(list);
    const bool swap = c.b();
    for (int i = 0; i < n; ++i)
    {
      const int k = c.i(0, files - 1);
      which.push_back(k);
      const std::string a = "image: \"" + im[k] + "\"", b = "pose: \"" + po[k] + "\"";
      const int style = c.i(0, 2);
      if (style == 0)
        o << "- {" << (swap ? b + ", " + a : a + ", " + b) << "}\n";
      else if (style == 1)
        o << "- " << (swap ? b : a) << "\n  " << (swap ? a : b) << "\n";
      else
        o << "# comment\n-\n  note: none\n  " << (swap ? b : a) << "\n  " << (swap ? a : b) << "\n";
    }
  }
  c.note("entries", n);
  c.note("files", files);
  bool moved = files > 1;
  c.nontrivial(moved && n > 1);
  const auto r = parseFromFile(list);
  c.check(bool(r), "list not loaded");
  same(c, s, *r, which);
  // the entries share nothing: what is done to one picture stays there
  if (n > 1)
  {
    const cv::Mat last = r->images.back().clone();
    boost::optional<ExtrinsicDataSet> w = parseFromFile(list);
    w->images.front().setTo(cv::Scalar(1, 2, 3));
    c.check(img::sameImage(w->images.back(), last), "two entries share their picture");
  }
}

namespace
{
// a target of which the images name the features directly
struct FakeTarget : rct_image_tools::Target
{
  rct_optimizations::Correspondence2D3D::Set createCorrespondences(const rct_image_tools::TargetFeatures& f) const override
  {
    rct_optimizations::Correspondence2D3D::Set s;
    for (const auto& e : f)
      for (const auto& p : e.second)
      {
        if (e.first == 99)
          throw std::runtime_error("no such feature");
        Correspondence2D3D k;
        k.in_image = p;
        k.in_target = Vector3d(e.first, 0, 0);
        s.push_back(k);
      }
    return s;
  }
};
struct FakeFinder : rct_image_tools::TargetFinder
{
  FakeTarget t;
  // pixel 0: 0 nothing found, 1 error, 2 error when matching, n features otherwise; pixels 1, 2: camera and image
  rct_image_tools::TargetFeatures findTargetFeatures(const cv::Mat& m) const override
  {
    const int k = m.at<uchar>(0, 0), cam = m.at<uchar>(0, 1), im = m.at<uchar>(0, 2);
    rct_image_tools::TargetFeatures f;
    if (k == 1)
    {
      // what detection may throw
      if ((cam + im) % 3 == 0)
        throw std::runtime_error("not found");
      if ((cam + im) % 3 == 1)
        throw std::logic_error("not found");
      throw cv::Exception(cv::Error::StsBadArg, "not found", "find", "finder", 1);
    }
    if (k == 2)
      f[99] = { Vector2d(1, 1) };
    for (int i = 0; k > 2 && i < k - 2; ++i)
      f[unsigned(i)] = { Vector2d(cam, im), Vector2d(i, 0.5) };
    return f;
  }
  cv::Mat drawTargetFeatures(const cv::Mat& m, const rct_image_tools::TargetFeatures&) const override { return m; }
  const rct_image_tools::Target& target() const override { return t; }
};
}  // namespace

PBT(C29, correspondence_sets, "at least two cameras, with images in which nothing is found", 5000, 200000)
{
  const int cams = c.b(1, 40) ? c.i(6, 12) : c.i(0, 5), base = c.b(1, 40) ? c.i(100, 200) : c.i(0, 7);
  const bool uneven = c.b(1, 3);
  std::vector<ExtrinsicDataSet> sets(cams);
  std::vector<std::vector<int>> kind(cams);
  std::size_t images = 0;
  bool missing = false;
  for (int k = 0; k < cams; ++k)
  {
    const int n = uneven ? c.i(0, 7) : base;
    for (int i = 0; i < n; ++i)
    {
      const int what = c.b(1, 3) ? c.i(0, 2) : c.i(3, 8);
      kind[k].push_back(what);
      missing = missing || what < 3;
      cv::Mat m(1, 3, CV_8U);
      m.at<uchar>(0, 0) = uchar(what), m.at<uchar>(0, 1) = uchar(k), m.at<uchar>(0, 2) = uchar(i);
      sets[k].images.push_back(m);
      sets[k].tool_poses.push_back(Isometry3d::Identity());
    }
    images = std::max(images, std::size_t(n));
  }
  std::ostringstream o;
  for (const auto& v : kind)
  {
    o << "[";
    for (int w : v)
      o << w << " ";
    o << "]";
  }
  c.note("images", o.str());
  c.label(uneven ? "different numbers of images" : "same number of images");
  c.nontrivial(cams > 1 && missing);
  const FakeFinder finder;
  const ExtrinsicCorrespondenceDataSet d(sets, finder);
  c.check(int(d.getCameraCount()) == cams, "camera count");
  c.check(d.getImageCount() == images || cams == 0, "image count");
  std::vector<int> perImage(images, 0);
  for (int k = 0; k < cams; ++k)
  {
    int n = 0;
    for (std::size_t i = 0; i < images; ++i)
    {
      const bool found = i < kind[k].size() && kind[k][i] > 2;
      const std::string at = "camera " + std::to_string(k) + " image " + std::to_string(i) + ": ";
      c.check(d.foundCorrespondence(k, i) == found, at + (found ? "reported absent" : "reported present"));
      n += found;
      perImage[i] += found;
      if (!found)
        continue;
      const auto& s = d.getCorrespondenceSet(k, i);
      c.check(int(s.size()) == 2 * (kind[k][i] - 2), at + "number of correspondences");
      for (std::size_t j = 0; j < s.size(); j += 2)
      {
        c.check(s[j].in_image == Vector2d(k, double(i)) && s[j].in_target == Vector3d(double(j / 2), 0, 0), at + "correspondences of another image");
        c.check(s[j + 1].in_image == Vector2d(double(j / 2), 0.5) && s[j + 1].in_target == s[j].in_target, at + "correspondences altered");
      }
    }
    c.check(int(d.getCameraImageCount(k)) == n, "number of images of camera " + std::to_string(k));
  }
  for (std::size_t i = 0; i < images && cams; ++i)
    c.check(int(d.getImageCameraCount(i)) == perImage[i], "number of cameras of image " + std::to_string(i));
}
