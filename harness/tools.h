// Runs the programs of rct_examples and rct_ros_tools (built as loadable objects by check.py) on generated data sets.
#pragma once
#include "image.h"
#include <rct_image_tools/target_features.h>
#include <rct_optimizations/types.h>
#include <xmlrpcpp/XmlRpcValue.h>

namespace tools
{
using namespace geom;
using rct_image_tools::TargetFeatures;
using XmlRpc::XmlRpcValue;

// --- what the stand-in target finder (plugin "verif::ExactFinder") sees in an image, by the number hidden in it
struct Seen
{
  enum Kind
  {
    FEATURES,
    THROWS,
    NOTHING
  } kind = FEATURES;
  TargetFeatures features;
};
struct Finder
{
  std::vector<Seen> seen;           // by image number
  std::vector<Vector3d> points;     // target geometry by feature number (times the configured scale)
  std::vector<int> asked;           // image numbers asked for, in order; -1: not one of the generated images
  int drawn = 0;
  bool mark = false;                // drawing features alters the picture
};
Finder& finder();
// an image of size 160x120 with a background of its own and number `id` hidden in it
cv::Mat image(Case& c, int id);
int imageId(const cv::Mat& m);
void markFeatures(cv::Mat& m, const TargetFeatures& f);

// --- what is displayed
struct Shown
{
  std::string window;
  cv::Mat frame;
};
std::vector<Shown>& shown();

// --- data on disk
struct Dir
{
  std::string path;
  Dir();
  ~Dir();
};
struct Entry
{
  int id = 0;
  cv::Mat image;
  Isometry3d pose = Isometry3d::Identity();
  enum Fault
  {
    NONE,
    NO_IMAGE,
    NO_POSE,
    BAD_POSE
  } fault = NONE;
};
// writes a data set; returns the path of its list
std::string writeSet(Case& c, const std::string& dir, const std::vector<Entry>& e);
void removeDir(const std::string& d);

// --- parameters
void clearParams();
void setParam(const std::string& key, const XmlRpcValue& v);
XmlRpcValue poseParam(const Isometry3d& p);
XmlRpcValue intrParam(const CameraIntrinsics& k);
XmlRpcValue finderParam(double scale);
std::vector<std::string> paramKeys();
void dropParam(const std::string& key);
XmlRpcValue getParam(const std::string& key);

// --- running
struct Run
{
  int code = 0;           // -1000: ended by an exception that main lets through
  std::string out;        // standard output
  std::vector<std::string> lines;
};
// name: source file of the program without its extension
Run run(Case& c, const std::string& name);
// function of the program by its mangled name; the program stays loaded while the object lives
struct Program
{
  void* h = nullptr;
  explicit Program(const std::string& name);
  ~Program();
  void* symbol(const std::string& mangled) const;
};

// --- reading the output
std::vector<double> numbers(const std::string& s);
// line that contains `what`, at or after `from`; fails if there is none
std::size_t find(Case& c, const Run& r, const std::string& what, std::size_t from = 0);
bool has(const Run& r, const std::string& what);
// the transform printed under a heading
Isometry3d transform(Case& c, const Run& r, std::size_t heading);
// |a-b| within the six printed digits and an absolute tolerance
void number(Case& c, double shown, double want, double abs, const std::string& what);
void pose(Case& c, const Isometry3d& shown, const Isometry3d& want, double rot, double trans, const std::string& what);
// frame equals the image with circles drawn, up to `slack` pixels
void frame(Case& c, const cv::Mat& got, const cv::Mat& image, const std::vector<Vector2d>& at, const cv::Scalar& colour, const std::string& what);
}  // namespace tools
