// C36: the data collection program pairs the pose and the picture of the moment it is asked, and saves all pairs.
#include "tools.h"
#include <cv_bridge/cv_bridge.h>
#include <fstream>
#include <image_transport/image_transport.h>
#include <opencv2/imgcodecs.hpp>
#include <ros/console.h>
#include <ros/ros.h>
#include <sys/stat.h>
#include <tf2_ros/transform_listener.h>
#include <unistd.h>
#include <yaml-cpp/yaml.h>
using namespace tools;

namespace
{
struct Picture
{
  sensor_msgs::ImagePtr msg;
  bool readable = true;
  cv::Mat bgr;     // what it shows
  cv::Mat mono16;  // or, of 16 bit pictures, the values
  int id = -1;
};
Picture picture(Case& c, int id)
{
  Picture p;
  p.msg = boost::make_shared<sensor_msgs::Image>();
  p.msg->header.seq = uint32_t(id);
  p.msg->header.stamp = ros::Time(uint32_t(100 + id), uint32_t(7 * id));
  p.msg->header.frame_id = "optical_frame_" + std::to_string(c.i(0, 3));
  cv::Mat m;
  const bool own = c.b(1, 4);  // any picture, without the target
  if (own)
  {
    m.create(c.i(1, 20), c.i(1, 20), CV_8UC3);
    cv::RNG rng(c.draw(1u << 20) + 1);
    rng.fill(m, cv::RNG::UNIFORM, 0, 256);
  }
  else
    m = image(c, id);
  const int kind = c.i(0, 9);
  std::string e = "bgr8";
  cv::Mat data = m.clone();
  p.bgr = m;
  if (kind == 4)
    e = "rgb8", cv::cvtColor(m, data, cv::COLOR_BGR2RGB);
  else if (kind == 5)
    e = "bgra8", cv::cvtColor(m, data, cv::COLOR_BGR2BGRA);
  else if (kind == 6)
  {
    e = "mono8", cv::cvtColor(m, data, cv::COLOR_BGR2GRAY);
    cv::cvtColor(data, p.bgr, cv::COLOR_GRAY2BGR);
  }
  else if (kind == 7)
  {
    e = "mono16";
    cv::Mat g;
    cv::cvtColor(m, g, cv::COLOR_BGR2GRAY);
    g.convertTo(data, CV_16U, c.pick({ 1.0, 5.0, 257.0 }));
    p.mono16 = data.clone();
  }
  else if (kind == 8)
  {
    e = c.pick<std::string>({ "yuv9", "32FC1", "" }), p.readable = false;
    if (e == "32FC1")
      data = cv::Mat(m.size(), CV_32FC1, cv::Scalar(0.5));
  }
  c.label("picture:" + (e.empty() ? std::string("no encoding") : e));
  const int pad = c.b(1, 4) ? c.i(1, 5) * 4 : 0;
  p.msg->encoding = e;
  p.msg->height = uint32_t(data.rows);
  p.msg->width = uint32_t(data.cols);
  p.msg->step = uint32_t(data.cols * data.elemSize()) + uint32_t(pad);
  p.msg->data.assign(std::size_t(p.msg->step) * p.msg->height, 0x5a);
  for (int y = 0; y < data.rows; ++y)
    std::memcpy(p.msg->data.data() + std::size_t(y) * p.msg->step, data.ptr(y), data.cols * data.elemSize());
  if (kind == 9)
    p.msg->data.pop_back(), p.readable = false, c.label("picture:truncated");
  p.id = p.readable && p.mono16.empty() ? imageId(p.bgr) : -1;
  return p;
}
// picture `got` is what `p` shows
void same(Case& c, const Picture& p, const cv::Mat& got, const std::string& at)
{
  c.check(got.type() == CV_8UC3 && got.size() == p.bgr.size(), at + ": picture of another size or type");
  if (p.mono16.empty())
  {
    cv::Mat d;
    cv::absdiff(got, p.bgr, d);
    const int n = cv::countNonZero(d.reshape(1));
    c.check(n == 0, at + ": picture differs in " + std::to_string(n) + " values");
    return;
  }
  // of 16 bit pictures: grey, and brighter where the picture is brighter
  std::map<int, int> map;
  for (int y = 0; y < got.rows; ++y)
    for (int x = 0; x < got.cols; ++x)
    {
      const cv::Vec3b v = got.at<cv::Vec3b>(y, x);
      c.check(v[0] == v[1] && v[1] == v[2], at + ": grey picture with colours");
      const auto r = map.emplace(int(p.mono16.at<uint16_t>(y, x)), int(v[0]));
      c.check(r.first->second == int(v[0]), at + ": equal grey values differ");
    }
  int last = 0;
  for (auto& q : map)
    c.check(q.second >= last, at + ": grey values out of order"), last = q.second;
}
rosshim::Frame frameOf(const Isometry3d& p) { return p.matrix(); }
struct Setup
{
  Dir d;
  std::string base, tool, topic, save, blocked;
};
void setup(Case& c, Setup& s)
{
  clearParams();
  rosshim::frames().clear();
  finder().points.assign(6, Vector3d::Zero());
  finder().seen.clear();
  finder().mark = true;
  s.base = c.pick<std::string>({ "base_link", "world", "tool0" });
  s.tool = s.base == "tool0" ? "base_link" : "tool0";
  s.topic = c.pick<std::string>({ "camera", "camera/image_raw" });
  s.blocked = s.d.path + "/out";
  s.save = s.blocked + (c.b(1, 3) ? "/" : "");
  for (auto& n : { s.base, s.tool, std::string("other"), std::string("base") })
    rosshim::frames()[n] = frameOf(anyIso(c, 2));
  setParam("base_frame", s.base);
  setParam("tool_frame", s.tool);
  setParam("image_topic", s.topic);
  setParam("save_dir", s.save);
  setParam("target_finder", finderParam(1.0));
}
bool call(Case& c, const std::string& service)
{
  auto it = rosshim::services().find(service);
  const auto f = it == rosshim::services().end() ? nullptr : it->second.lock();
  if (!f)
    c.fail("service '" + service + "' is not offered");
  return (*f)();
}
void send(Case& c, const std::string& topic, const sensor_msgs::ImagePtr& m)
{
  int n = 0;
  auto r = rosshim::subscribers().equal_range(topic);
  for (auto it = r.first; it != r.second; ++it)
    if (const auto f = it->second.lock())
      ++n, (*f)(m);
  c.check(n == 1, "pictures of the topic are received " + std::to_string(n) + " times");
}
void block(const std::string& p) { std::ofstream(p.c_str()) << "not a directory\n"; }
}  // namespace

PBT(C36, history, "pairs saved, of different pictures, with a picture or pose missing at some time", 2500, 60000)
{
  Setup s;
  setup(c, s);
  const int n = c.i(1, 25);
  bool missing = false;
  std::vector<std::pair<Picture, Isometry3d>> pairs;
  std::vector<Picture> sent;
  int last = -1, saves = 0;
  bool blocked = false;
  auto body = [&]() {
    for (int k = 0; k < n; ++k)
    {
      const std::string at = "step " + std::to_string(k);
      switch (c.i(0, 7))
      {
        case 0:
        case 1:
        {
          const int id = int(sent.size());
          Seen see;
          const int kind = c.i(0, 3);
          see.kind = kind == 0 ? Seen::THROWS : kind == 1 ? Seen::NOTHING : Seen::FEATURES;
          if (see.kind == Seen::FEATURES)
            for (unsigned q = 0; q < 3; ++q)
              see.features[q].push_back(Vector2d(c.r(5, 150), c.r(5, 110)));
          finder().seen.push_back(see);
          const Picture p = picture(c, id);
          sent.push_back(p);
          rosshim::published().clear();
          send(c, s.topic, p.msg);
          const auto& pub = rosshim::published();
          if (!p.readable)
          {
            c.check(pub.empty(), at + ": picture shown although none could be read");
            break;
          }
          last = id;
          c.check(pub.size() == 1, at + ": observer shows " + std::to_string(pub.size()) + " pictures");
          c.check(pub[0].first == s.topic + "_observer", at + ": observer on topic " + pub[0].first);
          c.check(pub[0].second.header.stamp.sec == p.msg->header.stamp.sec && pub[0].second.header.frame_id == p.msg->header.frame_id, at + ": observer header");
          Picture want = p;
          want.bgr = p.bgr.clone();
          if (p.id >= 0 && see.kind == Seen::FEATURES)
            markFeatures(want.bgr, see.features);
          same(c, want, cv_bridge::toCvCopy(pub[0].second, "bgr8")->image, at + ", observer");
          break;
        }
        case 2:
        case 3:
        {
          auto& f = rosshim::frames();
          const std::string which = c.pick<std::string>({ s.tool, s.tool, s.tool, s.base, "other" });
          if (c.b(1, 5))
            f.erase(which);
          else
            f[which] = frameOf(anyIso(c, c.b(1, 5) ? c.logr(1e-4, 1e4) : 2.0));
          break;
        }
        case 4:
        case 5:
        case 6:
        {
          auto& f = rosshim::frames();
          const bool can = f.count(s.base) && f.count(s.tool) && last >= 0;
          missing = missing || !can;
          const bool did = call(c, "collect");
          c.check(did == can, at + (can ? ": collecting refused" : ": collected without picture or pose"));
          if (!can)
            break;
          Isometry3d b, t;
          b.matrix() = f[s.base], t.matrix() = f[s.tool];
          pairs.emplace_back(sent[std::size_t(last)], b.inverse() * t);
          break;
        }
        default:
        {
          if (saves == 0 && !blocked && c.b(1, 4))
            block(s.blocked), blocked = true;
          else if (blocked && c.b())
            unlink(s.blocked.c_str()), blocked = false;
          const bool ok = call(c, "save");
          c.label(blocked ? "save:impossible" : "save");
          c.check(ok == !blocked || (blocked && pairs.empty() && false), at + (blocked ? ": saved although impossible" : ": saving refused"));
          if (blocked)
            break;
          ++saves;
          const YAML::Node list = YAML::LoadFile(s.blocked + "/data.yaml");
          c.check(list.size() == pairs.size(), at + ": " + std::to_string(list.size()) + " of " + std::to_string(pairs.size()) + " pairs saved");
          for (std::size_t i = 0; i < pairs.size(); ++i)
          {
            const std::string w = at + ", pair " + std::to_string(i);
            same(c, pairs[i].first, cv::imread(s.blocked + "/" + list[i]["image"].as<std::string>(), cv::IMREAD_COLOR), w);
            const YAML::Node p = YAML::LoadFile(s.blocked + "/" + list[i]["pose"].as<std::string>());
            const Vector3d at3(p["x"].as<double>(), p["y"].as<double>(), p["z"].as<double>());
            const Eigen::Quaterniond q(p["qw"].as<double>(), p["qx"].as<double>(), p["qy"].as<double>(), p["qz"].as<double>());
            const Isometry3d& want = pairs[i].second;
            c.check((at3 - want.translation()).norm() <= 1e-9 * (1 + want.translation().norm()), w + ": position differs");
            c.check((q.toRotationMatrix() - want.linear()).norm() <= 1e-7, w + ": orientation differs");
          }
        }
      }
    }
  };
  std::exception_ptr ex;
  bool spun = false;
  rosshim::spinning() = [&]() {
    spun = true;
    try
    {
      body();
    }
    catch (...)
    {
      ex = std::current_exception();
    }
  };
  const Run r = run(c, "command_line_cal");
  rosshim::spinning() = nullptr;
  finder().mark = false;
  if (ex)
    std::rethrow_exception(ex);
  c.check(spun && r.code == 0, "program does not run");
  c.note("steps", n);
  c.note("pairs", int(pairs.size()));
  c.note("saves", saves);
  std::set<const void*> distinct;
  for (auto& p : pairs)
    distinct.insert(p.first.msg.get());
  c.nontrivial(saves > 0 && distinct.size() > 1 && missing);
}

PBT(C36, refused, "a parameter is missing or malformed, or there is no pose of the tool", 800, 10000)
{
  Setup s;
  setup(c, s);
  const std::vector<std::string> keys = paramKeys();
  const std::string k = c.pick(keys);
  std::string what;
  switch (c.i(0, 3))
  {
    case 0:
      dropParam(k);
      what = k + " missing";
      break;
    case 1:
      setParam(k, XmlRpcValue(c.i(0, 1)));
      what = k + " of another type";
      break;
    case 2:
    {
      XmlRpcValue v = finderParam(1);
      v["type"] = "verif::None";
      setParam("target_finder", v);
      what = "unknown target finder";
      break;
    }
    default:
      rosshim::frames().erase(c.b() ? s.base : s.tool);
      what = "no pose of the tool";
  }
  bool spun = false;
  rosshim::spinning() = [&]() { spun = true; };
  const Run r = run(c, "command_line_cal");
  rosshim::spinning() = nullptr;
  finder().mark = false;
  c.note("what", what);
  c.nontrivial();
  c.check(r.code != 0 && !spun, "program runs although: " + what);
}
