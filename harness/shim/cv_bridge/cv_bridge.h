// Stand-in for cv_bridge: 8 bit colour and grey encodings and 16 bit grey.
#pragma once
#include <boost/make_shared.hpp>
#include <cstring>
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>
#include <sensor_msgs/Image.h>
#include <sensor_msgs/image_encodings.h>
#include <stdexcept>
namespace cv_bridge
{
class Exception : public std::runtime_error
{
public:
  using std::runtime_error::runtime_error;
};
inline int typeOf(const std::string& e)
{
  if (e == "rgb8" || e == "bgr8")
    return CV_8UC3;
  if (e == "rgba8" || e == "bgra8")
    return CV_8UC4;
  if (e == "mono8")
    return CV_8UC1;
  if (e == "mono16")
    return CV_16UC1;
  if (e == "32FC1")
    return CV_32FC1;
  throw Exception("Unrecognized image encoding [" + e + "]");
}
class CvImage
{
public:
  CvImage() {}
  CvImage(const std_msgs::Header& h, const std::string& e, const cv::Mat& m = cv::Mat()) : header(h), encoding(e), image(m) {}
  std_msgs::Header header;
  std::string encoding;
  cv::Mat image;
  sensor_msgs::ImagePtr toImageMsg() const
  {
    auto p = boost::make_shared<sensor_msgs::Image>();
    p->header = header;
    p->encoding = encoding;
    p->height = uint32_t(image.rows);
    p->width = uint32_t(image.cols);
    p->step = uint32_t(image.cols * image.elemSize());
    p->data.resize(std::size_t(p->step) * p->height);
    for (int y = 0; y < image.rows; ++y)
      std::memcpy(p->data.data() + std::size_t(y) * p->step, image.ptr(y), p->step);
    return p;
  }
};
typedef boost::shared_ptr<CvImage> CvImagePtr;
typedef boost::shared_ptr<const CvImage> CvImageConstPtr;
inline cv::Mat convert(const cv::Mat& m, const std::string& from, const std::string& to)
{
  cv::Mat r;
  if (from == to)
    return m.clone();
  auto colour = [](const std::string& e) { return e == "rgb8" || e == "bgr8" || e == "rgba8" || e == "bgra8" || e == "mono8" || e == "mono16"; };
  if (!colour(from) || !colour(to))
    throw Exception("[" + from + "] is not a color format. but [" + to + "] is. The conversion does not make sense");
  cv::Mat g = m;
  if (from == "mono16")
    m.convertTo(g, CV_8U, 255. / 65535.);
  const std::string f = from == "mono16" ? "mono8" : from, t = to == "mono16" ? "mono8" : to;
  // through bgr8
  if (f == "mono8")
    cv::cvtColor(g, r, cv::COLOR_GRAY2BGR);
  else if (f == "rgb8")
    cv::cvtColor(g, r, cv::COLOR_RGB2BGR);
  else if (f == "rgba8")
    cv::cvtColor(g, r, cv::COLOR_RGBA2BGR);
  else if (f == "bgra8")
    cv::cvtColor(g, r, cv::COLOR_BGRA2BGR);
  else
    r = g.clone();
  cv::Mat o = r;
  if (t == "mono8")
    cv::cvtColor(r, o, cv::COLOR_BGR2GRAY);
  else if (t == "rgb8")
    cv::cvtColor(r, o, cv::COLOR_BGR2RGB);
  else if (t == "rgba8")
    cv::cvtColor(r, o, cv::COLOR_BGR2RGBA);
  else if (t == "bgra8")
    cv::cvtColor(r, o, cv::COLOR_BGR2BGRA);
  if (to == "mono16")
    o.convertTo(o, CV_16U, 65535. / 255.);
  return o;
}
inline CvImagePtr toCvCopy(const sensor_msgs::Image& m, const std::string& encoding = std::string())
{
  const int type = typeOf(m.encoding);
  if (m.step < m.width * CV_ELEM_SIZE(type))
    throw Exception("Image is wrongly formed: step < width * byte_depth * num_channels");
  if (std::size_t(m.height) * m.step != m.data.size())
    throw Exception("Image is wrongly formed: height * step != size");
  const cv::Mat view(int(m.height), int(m.width), type, const_cast<uint8_t*>(m.data.data()), m.step);
  const std::string e = encoding.empty() ? m.encoding : encoding;
  return boost::make_shared<CvImage>(m.header, e, convert(view, m.encoding, e));
}
inline CvImagePtr toCvCopy(const sensor_msgs::ImageConstPtr& m, const std::string& e = std::string()) { return toCvCopy(*m, e); }
inline CvImageConstPtr toCvShare(const sensor_msgs::ImageConstPtr& m, const std::string& e = std::string()) { return toCvCopy(*m, e); }
inline CvImagePtr cvtColor(const CvImageConstPtr& s, const std::string& e) { return boost::make_shared<CvImage>(s->header, e, convert(s->image, s->encoding, e)); }
}  // namespace cv_bridge
